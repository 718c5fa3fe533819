package main

var specs map[string]*spec

func init() {
	specs = map[string]*spec{
		"P01": {quick: 48000, thorough: 1500000, batch: 200, run: newLib(false), rule: "a case is one file (generated from a model under a random legal layout, or from the corpus), a shaping of the reads, and an order of calls; non-trivial when reads were actually shaped or the container has a layout to choose; distinct by stored bytes and system call history"},
		"P02": {quick: 48000, thorough: 1500000, batch: 200, run: newLib(false), rule: "a case is one file, an order of calls (with repeats and re-opening) and one or two failures of a system call placed among the calls seen in an undisturbed run; non-trivial when a failure was delivered; distinct by stored bytes and system call history"},
		"P03": {quick: 48000, thorough: 1500000, batch: 200, run: newLib(false), rule: "a case is one file with one to five damages of its stored bytes (before or while it is open), and calls with all observers; distinct by stored bytes and system call history"},
		"P04": {quick: 48000, thorough: 1500000, batch: 200, run: newLib(false), rule: "a case is one workbook cut short, shrinking during the work, or torn inside a checksummed part; distinct by stored bytes and system call history"},
		"P06": {quick: 48000, thorough: 1500000, batch: 200, run: newLib(false), rule: "a case is a history of opens, reads and closes over intact, damaged and missing files with failing system calls and small descriptor limits; non-trivial when an open failed or a source was closed; distinct by stored bytes and system call history"},
		"P05": {quick: 8000, thorough: 400000, batch: 40, run: newLib(true), rule: "a case is a set of two to four threads with their files (intact or damaged), operations and per-file failures, and one interleaving at statement granularity; non-trivial when at least three switches between unfinished threads happened; distinct by interleaving, stored bytes and system call history"},
		"P07": {quick: 48000, thorough: 1500000, batch: 200, run: newLib(false), rule: "a case is a history of open, list, get, next, observe, hold, modify, drain and close over one to three sources and up to six cursors; non-trivial when a row was observed; distinct by stored bytes, system call history and observations"},
		"P08": {quick: 24000, thorough: 800000, batch: 200, run: newLib(false), rule: "a case is one file (intact, damaged, several style or string parts, or text of disputable shape) read five times under different runtime randomness, recycling, place, clock and earlier activity; distinct by stored bytes and system call history"},
		"P09": {quick: 200000, thorough: 2000000, batch: 400, run: newLib(false), rule: "a case is a container layout with its streams (or a sliced reader) and a history of reads and seeks; non-trivial when a read happened; distinct by stored bytes, history and observations"},
		"P10": {quick: 96000, thorough: 1500000, batch: 200, run: newLib(false), rule: "a case is a partition of encrypted streams into writes, with reads, flushes and resets anywhere, or an encrypted workbook; non-trivial when plain text came out; distinct by history and observations"},
		"P15": {quick: 40000, thorough: 600000, batch: 50, run: newReg, rule: "a case is a history of registrations (priorities, ties, answers per call) and opens, with or without the built-in formats and failing files; non-trivial when at least two formats are registered; distinct by history and results"},
		"P11": {quick: 1600, thorough: 60000, batch: 8, run: newTool(true, "grate2tsv"), rule: "a case is a set of one to eleven input files, two to four runs of the batch converter over it with different interleavings, processor counts, argument orders and shapings of the transfers; distinct by interleaving, system call history and output"},
		"P12": {quick: 4000, thorough: 90000, batch: 8, run: newTool(false, "grate2tsv"), rule: "a case is a set of input files, one to three write-side failures (per call, per file, or the capacity of the disk) and one interleaving; non-trivial when a failure was delivered; distinct by interleaving, system call history and output"},
		"P13": {quick: 3200, thorough: 120000, batch: 8, run: newTool(false, "grate2tsv"), rule: "a case is a set of input files and a history of runs of the batch converter, killed at a scheduler step or in a system call, the last one uninterrupted; non-trivial when a run was killed; distinct by interleaving, system call history and output"},
		"P14": {quick: 2800, thorough: 100000, batch: 8, run: newTool(false, "grate2tsv", "grater"), rule: "a case is a set of good, missing, damaged and failing inputs of one of the two tools and one interleaving; non-trivial when at least one input is bad; distinct by interleaving, system call history and output"},
		"P16": {quick: 4000, thorough: 90000, batch: 8, run: newTool(false, "grate2tsv", "grater"), rule: "a case is a set of inputs of one of the two tools, and failures in writing standard output (plain extractor) or the status file (batch converter, also when it exists from an earlier run); non-trivial when a failure was delivered; distinct by interleaving, system call history and output"},
	}
}
