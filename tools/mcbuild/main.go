// mcbuild builds a model-checking binary from /repo's working tree and
// /verif/mc, without changing /repo: the checker's packages are overlaid at
// /repo/internal/verifx, and the OpenTelemetry modules missing from this
// sandbox are replaced by the stubs in /verif/stubs.
//
//	mcbuild [-race] [-rewrite] [-o FILE] PKG
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mcbuild: "+f+"\n", a...)
	os.Exit(code)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	out := flag.String("o", "", "")
	work := flag.String("work", "", "scratch directory")
	race := flag.Bool("race", false, "")
	rewrite := flag.String("rewrite", "", "comma separated: sync,chan")
	flag.Parse()
	pkg := flag.Arg(0)

	mod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die(2, "%v", err)
	}
	var b bytes.Buffer
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(strings.TrimSpace(l), "replace github.com/takenet/deckard ") {
			continue
		}
		b.WriteString(l + "\n")
	}
	ds, err := os.ReadDir(filepath.Join(*verif, "stubs"))
	if err != nil {
		die(2, "%v", err)
	}
	for _, d := range ds {
		dir := filepath.Join(*verif, "stubs", d.Name())
		gm, err := os.ReadFile(filepath.Join(dir, "go.mod"))
		if err != nil {
			continue
		}
		name := strings.Fields(string(gm))[1]
		fmt.Fprintf(&b, "replace %s => %s\n", name, dir)
	}
	modf := filepath.Join(*work, "go.mod")
	if err := os.WriteFile(modf, b.Bytes(), 0o644); err != nil {
		die(2, "%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err != nil {
		die(2, "%v", err)
	}
	os.WriteFile(filepath.Join(*work, "go.sum"), sum, 0o644)

	ov := map[string]string{}
	root := filepath.Join(*verif, "mc")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "inject/") {
			// mc/inject/<path>/x.go is added to the repository package <path>.
			ov[filepath.Join(*repo, strings.TrimPrefix(rel, "inject/"))] = p
			return nil
		}
		ov[filepath.Join(*repo, "internal", "verifx", rel)] = p
		return nil
	})
	if *rewrite != "" {
		if err := rewriteRepo(*repo, *work, *rewrite, ov); err != nil {
			die(2, "rewrite: %v", err)
		}
	}
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(*work, "overlay.json")
	os.WriteFile(ovf, js, 0o644)

	args := []string{"build", "-modfile=" + modf, "-overlay=" + ovf, "-o", *out}
	if *race {
		args = append(args, "-race", "-gcflags=github.com/takenet/deckard/internal/verifx/vsync=-race=false -l")
	}
	args = append(args, pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	if *race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	if err := cmd.Run(); err != nil {
		die(2, "go build: %v", err)
	}
}
