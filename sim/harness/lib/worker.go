package tachograph_test

import (
	"simrt"
	"testing"
)

func TestSimWorker(t *testing.T) {
	if !simrt.LoadConfig() {
		t.Skip("not a simulation worker")
	}
	if simrt.IsLife() {
		simRunLife()
		return
	}
	sc, ok := simScenarios[simrt.Cfg.Prop]
	if !ok {
		panic("simrt: no scenario " + simrt.Cfg.Prop)
	}
	if sc.MaxSteps == 0 {
		sc.MaxSteps = 50_000_000
	}
	sc.RandStart = true // the wall clock of every run is drawn from its seed
	simrt.Main(sc)
}
