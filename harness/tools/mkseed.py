import sys,os,json,subprocess,shutil
# usage: mkseed(id, prop, needs, breaks, edits=[(file,old,new)], demo_pkg, demo_go)
def mkseed(id, prop, needs, breaks, edits, files, demo):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    wt='/tmp/mkseed_wt'
    subprocess.run(['rm','-rf',wt]); subprocess.run(['git','clone','-q','/repo',wt],check=True)
    for f,old,new in edits:
        p=wt+'/'+f; s=open(p).read()
        assert s.count(old)==1,(f,s.count(old),old)
        base=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.split()[0]
        orig=subprocess.run(['git','-C','/repo','show',base+':'+f],capture_output=True,text=True).stdout
        for l in old.split('\n'):
            if l.strip() and l not in orig: print(id,'NOT ORIGINAL:',l)
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True,check=True).stdout
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    for n,c in files.items(): open(d+'/'+n,'w').write(c)
    open(d+'/demo.sh','w').write(demo)
    subprocess.run(['rm','-rf',wt])
def gotest(pkg, name='zz_demo_test.go', src='demo_test.go.txt'):
    return f'''#!/bin/bash
# runs the test beside this file as if it lay in ./{pkg}
here=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.24.13/bin ] && export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
unset GOROOT GOFLAGS
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace":{{"%s/{pkg}/{name}":"%s/{src}"}}}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestDemo$' ./{pkg}
'''
META='''package v1

type TypeMeta struct {
	Kind       string `json:"kind,omitempty"`
	APIVersion string `json:"apiVersion,omitempty"`
}
type ObjectMeta struct {
	Name string `json:"name,omitempty"`
}
type ListMeta struct {
	Continue string `json:"continue,omitempty"`
}
'''
def cli(files, run, mod='example.com/demo'):
    # a script that builds controller-gen and runs it (run: shell text, $CG is the tool, $out an empty directory) on a small module
    s='''#!/bin/bash
# builds the tool from the current directory and runs it on a small module in a scratch directory
set -u
[ -d /opt/veriftools/go1.24.13/bin ] && export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
unset GOROOT GOFLAGS
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -buildvcs=false -o "$tmp/controller-gen" ./cmd/controller-gen || exit 2
CG=$tmp/controller-gen; out=$tmp/out
mkdir -p "$tmp/m" "$out"; cd "$tmp/m" || exit 2
put() { mkdir -p "$(dirname "$1")"; cat > "$1"; }
'''
    fs={'go.mod':f'module {mod}\n\ngo 1.24\n'}
    if any('apimachinery' in c for c in files.values()):
        fs['go.mod']+='\nrequire k8s.io/apimachinery v0.0.0\n\nreplace k8s.io/apimachinery => ./fake\n'
        fs['fake/go.mod']='module k8s.io/apimachinery\n\ngo 1.24\n'
        fs['fake/pkg/apis/meta/v1/types.go']=META
    fs.update(files)
    for n,c in fs.items():
        s+=f"put {n} <<'EOF_FILE'\n{c}"+('' if c.endswith('\n') else '\n')+"EOF_FILE\n"
    return s+run
