package main

func readTSC() uint64
