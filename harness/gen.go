package main

func generate(kind string, seed int64, n int) []Scenario { return nil }
