import os, subprocess, json, shutil, sys
DEMO='''#!/bin/bash
# Runs main.go against the source tree in the current directory.
# Exit 0: the behaviour is right. Needs nothing but the Go toolchain.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
w=$(mktemp -d) || exit 3
trap 'chmod -R u+w "$w"; rm -rf "$w"' EXIT
P=gitlab.cs.fau.de/since/radolan
mkdir -p "$w/gopath/src/$P" "$w/gopath/src/demo" "$w/tmp"
cp -a ./*.go ./radolan2png "$w/gopath/src/$P/" || exit 3
cp "$here/main.go" "$w/gopath/src/demo/" || exit 3
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=$w GO111MODULE=off GOPATH=$w/gopath GOCACHE=$w/cache GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK=off CGO_ENABLED=@CGO@ TZ=@TZ@ TMPDIR=$w/tmp
@EXTRA@cd "$w/gopath/src/demo" || exit 3
go build @FLAGS@ -o "$w/demo" . || exit 3
cd "$w/tmp" || exit 3
timeout 200 "$w/demo"
rc=$?
echo "demo: exit status $rc"
exit $rc
'''
HELP='''
// ---- helpers ----

const date = "011200100000816" // day, hour, minute, radar, month, year

// file assembles a composite: label, fields behind BY (in order), binary section
// of which length bytes are declared.
func file(label, fields string, length int, body []byte) []byte {
	n := length
	for {
		h := label + date + fmt.Sprintf("BY%7d", n) + fields + "\\x03"
		if n == length+len(h) {
			return append([]byte(h), body...)
		}
		n = length + len(h)
	}
}

func read(raw []byte) (*radolan.Composite, error) { return radolan.NewComposite(bytes.NewReader(raw)) }

func must(raw []byte) *radolan.Composite {
	c, err := read(raw)
	if err != nil {
		fail("unexpected error: %v", err)
	}
	return c
}

func fail(format string, args ...interface{}) {
	fmt.Printf("WRONG: "+format+"\\n", args...)
	os.Exit(1)
}

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fail(format, args...)
	}
}
'''
def seed(id, prop, edits, imports, body, needs, breaks, cgo=0, flags='', tz='UTC', extra=''):
    """edits: list of (file, old, new)"""
    d='/verif/seeded/'+id
    w='/tmp/seed/w'
    shutil.rmtree(w,ignore_errors=True); shutil.copytree('/repo',w)
    for f,o,n in edits:
        s=open(w+'/'+f).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(w+'/'+f,'w').write(s.replace(o,n))
    r=subprocess.run(['gofmt','-l','.'],cwd=w,capture_output=True,text=True)
    ch=subprocess.run(['git','diff','--name-only'],cwd=w,capture_output=True,text=True).stdout.split()
    for x in r.stdout.split():
        if x in ch: print(id,'gofmt',x)
    diff=subprocess.run(['git','diff'],cwd=w,capture_output=True,text=True).stdout
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    t=DEMO.replace('@CGO@',str(cgo)).replace('@FLAGS@',flags).replace('@TZ@',tz).replace('@EXTRA@',extra)
    open(d+'/demo.sh','w').write(t); os.chmod(d+'/demo.sh',0o755)
    imps=sorted(set(['fmt','os','bytes','gitlab.cs.fau.de/since/radolan']+imports))
    src='package main\n\nimport (\n'+''.join('\t%s"%s"\n'%(('_ ' if i[0]=='_' else ''),i.lstrip('_ ')) for i in imps)+')\n\n'+body.strip('\n')+'\n'+HELP
    open(d+'/main.go','w').write(src)
    subprocess.run(['gofmt','-w',d+'/main.go'])
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
