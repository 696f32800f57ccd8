// Command shimgen writes the generated half of the stand-ins for the standard
// packages through which a program meets the outside world: everything pure
// is forwarded, everything else that is not modelled raises Unsupported.
// Run during development only; its output is committed.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// pure lists the functions forwarded to the real package ("*": all of them).
var pure = map[string]string{
	"time":          "*",
	"os":            "IsExist IsNotExist IsPermission IsTimeout IsPathSeparator Expand NewSyscallError Getpagesize SameFile",
	"net":           "ParseIP ParseCIDR ParseMAC IPv4 IPv4Mask CIDRMask JoinHostPort SplitHostPort UDPAddrFromAddrPort TCPAddrFromAddrPort",
	"syscall":       "ByteSliceFromString BytePtrFromString Getpagesize NsecToTimespec NsecToTimeval TimespecToNsec TimevalToNsec StringByteSlice",
	"sync":          "*",
	"log":           "",
	"fmt":           "*",
	"io/ioutil":     "ReadAll NopCloser",
	"math/rand":     "New NewSource NewZipf",
	"math/rand/v2":  "NewPCG NewChaCha8 NewZipf",
	"crypto/rand":   "",
	"path/filepath": "Clean Join Base Dir Ext IsAbs IsLocal Localize Split SplitList ToSlash FromSlash VolumeName Match Rel HasPrefix",
	"runtime":       "Version NumCPU Caller Callers CallersFrames FuncForPC Stack KeepAlive GC GOROOT ReadMemStats",
	"os/signal":     "",
	"context":       "",
}

// omit lists names left out: they lead to the real world.
var omit = map[string]string{
	"net":  "Dialer ListenConfig Resolver DefaultResolver TCPConn TCPListener IPConn UnixConn UnixListener DialTCP ListenTCP DialIP ListenIP DialUnix ListenUnix ListenUnixgram FileListener",
	"os":   "Root OpenRoot OpenInRoot Process ProcAttr ProcessState FindProcess StartProcess",
	"sync": "OnceFunc",
}

func main() {
	out := os.Args[1]
	list := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}")
	for p := range pure {
		list.Args = append(list.Args, p)
	}
	b, err := list.Output()
	if err != nil {
		panic(err)
	}
	exp := map[string]string{}
	for _, l := range strings.Fields(string(b)) {
		if i := strings.Index(l, "="); i > 0 {
			exp[l[:i]] = l[i+1:]
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) { return os.Open(exp[p]) })
	for p := range pure {
		pkg, err := imp.Import(p)
		if err != nil {
			panic(err)
		}
		dir := filepath.Join(out, p)
		have := map[string]bool{}
		for _, n := range strings.Fields(omit[p]) {
			have[n] = true
		}
		fs, _ := filepath.Glob(dir + "/*.go")
		for _, f := range fs {
			if strings.HasSuffix(f, "zz_gen.go") {
				continue
			}
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						}
					}
				}
			}
		}
		ispure := map[string]bool{}
		for _, n := range strings.Fields(pure[p]) {
			ispure[n] = true
		}
		var o bytes.Buffer
		fmt.Fprintf(&o, "// Code generated by shimgen. DO NOT EDIT.\n\npackage %s\n\nimport (\n\treal %q\n\t\"simmod/simrt\"\n)\n\nvar _ = simrt.Cur\n\n", pkg.Name(), p)
		names := pkg.Scope().Names()
		sort.Strings(names)
		n := 0
		for _, nm := range names {
			ob := pkg.Scope().Lookup(nm)
			if !ob.Exported() || have[nm] {
				continue
			}
			switch ob := ob.(type) {
			case *types.Const:
				fmt.Fprintf(&o, "const %s = real.%s\n", nm, nm)
			case *types.Var:
				fmt.Fprintf(&o, "var %s = real.%s\n", nm, nm)
			case *types.TypeName:
				if nt, ok := ob.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&o, "type %s = real.%s\n", nm, nm)
			case *types.Func:
				sig := ob.Type().(*types.Signature)
				if sig.TypeParams().Len() > 0 {
					continue
				}
				if ispure["*"] || ispure[nm] {
					fmt.Fprintf(&o, "var %s = real.%s\n", nm, nm)
				} else {
					fmt.Fprintf(&o, "var %s = simrt.UnsupFunc(real.%s, %q)\n", nm, nm, p+"."+nm)
				}
			}
			n++
		}
		src := o.Bytes()
		if n == 0 {
			src = []byte("// Code generated by shimgen. DO NOT EDIT.\n\npackage " + pkg.Name() + "\n")
		} else if !bytes.Contains(src, []byte("real.")) {
			src = bytes.Replace(src, []byte("\treal "), []byte("\t_ "), 1)
		}
		src, err = format.Source(src)
		if err != nil {
			panic(err)
		}
		os.MkdirAll(dir, 0755)
		if err := os.WriteFile(filepath.Join(dir, "zz_gen.go"), src, 0644); err != nil {
			panic(err)
		}
	}
}
