package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
)

var repoRoot string

func main() {
	specFile := flag.String("spec", "", "TLC output of ParserGraph")
	behFile := flag.String("behaviours", "", "TLC output of Library")
	txtFile := flag.String("texts", "", "TLC output of MCJson")
	cacheFile := flag.String("caches", "", "TLC output of Caches")
	partsFile := flag.String("parts", "", "TLC output of Parts")
	memFile := flag.String("memory", "", "TLC output of Memory")
	famFile := flag.String("family", "", "TLC output of MCFamily")
	flag.StringVar(&prop, "property", "", "property")
	flag.StringVar(&tier, "tier", "quick", "tier")
	flag.Int64Var(&seed, "seed", 1, "seed")
	flag.StringVar(&outDir, "out", ".", "output directory")
	root := flag.String("repo", "/repo", "sources")
	bin := flag.String("bin", "", "binary of the tool")
	scratch := flag.String("scratch", "", "directory for files")
	suite := flag.String("suite", "", "suite")
	coldCase := flag.Int("case", 0, "which of the first calls")
	flag.Parse()
	if *suite == "cold" {
		cold(*coldCase)
	}
	repoRoot = *root
	gen := &generator{sp: loadSpec(*specFile), dict: harvest(*root)}
	go watch()
	gen.fillPool()
	if *suite == "stats" {
		for _, m := range modeNames {
			g := gen.sp.graphs[m]
			var n [5]int
			g.wmethod(0, 0, 1, func(string) { n[0]++ })
			g.tails(3, 0, 1, func(string) { n[1]++ })
			g.tails(4, 0, 1, func(string) { n[3]++ })
			gen.pumped(m, 0, 1, func(string) { n[2]++ })
			acc := 0
			gen.random(m, rand.New(rand.NewSource(1)), 100000, func(s string) {
				if g.run(s).ok {
					acc++
				}
			})
			fmt.Println(m, len(g.states), "W", len(g.wset), g.wset, "classes", len(g.classes()), n, "acc%", acc/1000)
			r := rand.New(rand.NewSource(3))
			for i := 0; i < 10; i++ {
				fmt.Printf("  %q\n", g.walk(r))
			}
		}
		os.Exit(0)
	}
	givenInit()
	switch prop {
	case "C01":
		checkParse(gen, []string{"2141"})
	case "C02":
		checkParse(gen, []string{"8141"})
	case "C03":
		checkParse(gen, []string{"7643"})
	case "C04", "C06":
		checkParse(gen, modeNames)
	case "C05", "C13":
		trace.share(3)
		checkParse(gen, modeNames)
		trace.share(3)
		if *behFile != "" {
			replay(gen, *behFile)
		}
		trace.share(2)
		if *famFile != "" {
			family(gen, *famFile)
		}
		trace.share(1)
		histories(gen, pick(8000, 200000))
		longRun(gen)
	case "C07", "C08", "C09", "C11", "C12", "C17", "C21", "C22":
		trace.share(4)
		if *behFile != "" {
			replay(gen, *behFile)
		}
		trace.share(4)
		if *famFile != "" {
			family(gen, *famFile)
		}
		trace.share(3)
		histories(gen, pick(40000, 1000000))
		trace.share(2)
		switch prop {
		case "C07":
			bulkNorm(gen)
		case "C08":
			bulkEqual(gen)
			collisions(gen)
		case "C11":
			bulkJSON(gen)
			trace.share(1)
			if *txtFile != "" {
				jsonTexts(gen, *txtFile)
			}
			everyChar(gen)
		case "C17", "C21":
			bulkRead(gen)
		case "C22":
			bulkOwn(gen)
		}
		if in(prop, "C09", "C11", "C12", "C17", "C22") {
			longRun(gen)
		}
	case "C10":
		trace.share(3)
		if *behFile != "" {
			replay(gen, *behFile)
		}
		trace.share(2)
		checkMemory(gen)
		trace.share(1)
		longRun(gen)
		histories(gen, pick(20000, 500000))
	case "C14":
		checkModes(gen)
	case "C15":
		if *behFile != "" {
			n := pick(6, 40)
			if *suite == "race" {
				n = pick(4, 24)
			}
			scenes(gen, *behFile, n)
		}
		sweep(gen, *suite == "race")
		hammer(gen, *suite == "race")
		checkConc(gen, *suite == "race")
	case "C16":
		checkTypes(gen, *famFile, *behFile)
	case "C20":
		checkCost(gen)
	case "C18", "C19":
		checkTool(gen, *bin, *scratch, *behFile)
	}
	if *cacheFile != "" {
		caches(gen, *cacheFile)
	}
	if *memFile != "" {
		memory(gen, *memFile)
	}
	if *partsFile != "" {
		parts(gen, *partsFile)
	}
	if in(prop, "C05", "C07", "C08", "C09", "C11", "C12", "C16", "C17", "C21", "C22") {
		ticks(gen)
	}
	if in(prop, "C05", "C09", "C22") {
		afterBig(gen)
	}
	if in(prop, "C05", "C09") {
		everyModeValue(gen)
		manyOptions(gen)
	}
	readGivenAgain()
	writeEvents(outDir+"/trace.ndjson", append([]*Event{{Op: "reset"}}, trace.evs...))
	rep.finish(outDir)
}
