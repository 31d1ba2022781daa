package main

import "context"

var bg = context.Background()
