package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
)

type rule struct {
	f     func(p *Program, r *Report)
	mains bool // needs the commands too
	level string
}

var rules = map[string]rule{
	"C15": {ruleSimplify, false, "other"},
	"C19": {ruleRefs, false, "other"},
	"C23": {ruleComp, false, "other"},
	"C24": {ruleFocus, false, "other"},
	"C25": {ruleSpelling, false, "other"},
	"C26": {ruleASCII, false, "other"},
	"C27": {ruleAnswer, true, "other"},
	"C28": {ruleNames, false, "other"},
	"C29": {ruleGrammarFile, false, "other"},
	"C13": {ruleTotal, false, "other"},
	"C17": {ruleFuncWords, false, "other"},
	"C22": {ruleArguments, false, "other"},
	"C14": {ruleBindings, false, "other"},
	"C12": {ruleConnect, false, "other"},
	"LD":  {ruleLDump, false, "other"},
	"C09": {ruleTones, false, "other"},
	"C10": {ruleTerminates, false, "other"},
	"C11": {ruleLockstep, false, "other"},
	"C01": {ruleWords, false, "other"},
	"C02": {ruleExtents, false, "other"},
	"C03": {ruleEqual, false, "other"},
	"C06": {ruleEffects, false, "other"},
	"C21": {ruleDeterminism, false, "other"},
	"C08": {ruleParse, false, "other"},
	"C07": {ruleFresh, false, "other"},
	"C18": {ruleFront, true, "other"},
	"C20": {ruleDict, false, "other"},
	"C16": {rulePrint, false, "other"},
	"C05": {ruleBraces, false, "other"},
	"C04": {ruleVisit, false, "other"},
}

func main() {
	prop := flag.String("p", "", "property")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	out := flag.String("out", "", "evidence directory")
	flag.Parse()
	if *out == "" {
		*out = *verif + "/evidence"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ru, ok := rules[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	r := newReport(*prop)
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.bad("internal", fmt.Sprint(x), "-", "the analysis failed: "+fmt.Sprint(x)+"\n"+string(debug.Stack()))
			}
		}()
		p := load(*repo, ru.mains)
		for _, e := range p.errs {
			r.bad("load", e, "-", e)
		}
		if len(p.errs) == 0 {
			ru.f(p, r)
		}
	}()
	os.Exit(r.finish(*verif, *out, tier, seed, ru.level))
}
