package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"go.opentelemetry.io/otel"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/verifmc/mc"
)

// A program with the default logger, run as one: this binary, with childEnv.
const childEnv = "VERIF_LAUNCH_CHILD"

func childMain(spec string) {
	f := strings.Split(spec, " ")
	addr := f[0]
	opts := []launcher.Option{launcher.WithSpanExporterEndpoint(addr), launcher.WithMetricExporterEndpoint(addr), launcher.WithSpanExporterInsecure(true), launcher.WithMetricExporterInsecure(true),
		launcher.WithMetricsBuiltinsEnabled(false), launcher.WithMetricReportingPeriod(time.Hour), launcher.WithServiceName("svc")}
	for _, x := range f[1:] {
		switch x {
		case "noname":
			opts = append(opts, launcher.WithServiceName(""))
		case "notoken":
			opts = append(opts, launcher.WithSpanExporterEndpoint(launcher.DefaultSpanExporterEndpoint))
		case "nospans":
			opts = append(opts, launcher.WithSpanExporterEndpoint(""))
		case "nometrics":
			opts = append(opts, launcher.WithMetricExporterEndpoint(""))
		case "badprop":
			opts = append(opts, launcher.WithPropagators([]string{"nonesuch"}))
		case "badperiod":
			opts = append(opts, launcher.WithMetricReportingPeriod(-1))
		case "debug":
			opts = append(opts, launcher.WithLogLevel("debug"))
		case "handler":
			opts = append(opts, launcher.WithErrorHandler(otel.ErrorHandlerFunc(func(err error) { fmt.Println("own handler", err) })))
		}
	}
	l := launcher.ConfigureOpentelemetry(opts...)
	fmt.Println("started")
	otel.Handle(errors.New("something odd 7%d"))
	c, err := otel.Meter("m").Int64Counter("c")
	if err == nil {
		c.Add(context.Background(), 5)
	}
	_, span := otel.Tracer("t").Start(context.Background(), "span")
	span.End()
	l.Shutdown()
	fmt.Println("ended")
}

func init() {
	mc.Register(&mc.Scenario{
		Name: "launch-process", Props: []string{"C18"}, Bound: [2]int{0, 0}, Race: [2]int{-1, -1},
		Doc: "a program with the default logger: it ends with a failure where the launcher refuses, and runs otherwise",
		Body: func(r *mc.R) {
			c := coll()
			bad := []struct{ word, say string }{{"", ""}, {"noname", "service name"}, {"notoken", "access token"}, {"badprop", "propagator"}, {"badperiod", "reporting period"}, {"badenv", "environment"}}[r.Choose(6)]
			debug, handler := r.ChooseBool(), r.ChooseBool()
			off := []string{"", "nospans", "nometrics"}[r.Choose(3)]
			spec := strings.Join(strings.Fields(c.addr+" "+bad.word+" "+off), " ")
			if off == "nospans" && (bad.word == "badprop" || bad.word == "notoken") || off == "nometrics" && bad.word == "badperiod" {
				return
			}
			if debug {
				spec += " debug"
			}
			if handler {
				spec += " handler"
			}
			c.reset()
			exe, err := os.Executable()
			if err != nil {
				r.Failf("C18", "%v", err)
			}
			ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
			defer cancel()
			cmd := exec.CommandContext(ctx, exe)
			for _, e := range os.Environ() {
				if !strings.HasPrefix(e, "OTEL_") && !strings.HasPrefix(e, "LS_") {
					cmd.Env = append(cmd.Env, e)
				}
			}
			cmd.Env = append(cmd.Env, childEnv+"="+spec)
			if bad.word == "badenv" {
				cmd.Env = append(cmd.Env, "LS_METRICS_ENABLED=perhaps")
			}
			var out, log bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &log
			err = cmd.Run()
			if ctx.Err() != nil {
				r.Failf("C18", "%s: the program did not end", spec)
			}
			started, ended := strings.Contains(out.String(), "started"), strings.Contains(out.String(), "ended")
			if bad.word != "" {
				if err == nil || started || !strings.Contains(log.String(), bad.say) {
					r.Failf("C18", "%s: ended with %v, started %v, log %q; want a failure about the %s", spec, err, started, log.String(), bad.say)
				}
				if len(c.gotMetrics())+len(c.gotTraces()) > 0 {
					r.Failf("C18", "%s: data sent nevertheless", spec)
				}
				return
			}
			if err != nil || !started || !ended {
				r.Failf("C18", "%s: ended with %v, started %v, log %q", spec, err, started, log.String())
			}
			if own := strings.Contains(out.String(), "own handler something odd 7%d"); own != handler {
				r.Failf("C18", "%s: handed to the configured error handler: %v", spec, own)
			}
			if logged := strings.Contains(log.String(), "something odd 7%d"); logged == handler {
				r.Failf("C18", "%s: logged by default: %v", spec, logged)
			}
			if nm, nt := len(c.gotMetrics()), len(c.gotTraces()); (nm > 0) != (off != "nometrics") || (nt > 0) != (off != "nospans") {
				r.Failf("C18", "%s: %d metric and %d trace requests arrived", spec, nm, nt)
			}
		},
	})
}
