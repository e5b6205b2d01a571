package main

import "sync"

var loopMu sync.Mutex
