prop='C08'
edits=[('cmd/pkger/cmds/pack.go', '\tfp := filepath.Join(info.Dir, e.out, outName)\n\tos.RemoveAll(fp)\n\n\tdecls, err := parser.Parse(info, e.include...)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tif err', '\tdecls, err := parser.Parse(info, e.include...)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tfp := filepath.Join(info.Dir, e.out, outName)\n\tos.RemoveAll(fp)\n\n\tif err')]
needs='packing sources that cannot be analysed over an earlier generated file'
breaks='the earlier generated file stays, and is analysed with the sources'
script='#!/bin/bash\n. /opt/vp/env.sh 2>/dev/null || true\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\ngo build -o "$w/pkger" ./cmd/pkger || exit 1\nmkdir -p "$w/app"\ncd "$w/app" || exit 1\nprintf \'module app\\n\' > go.mod\nprintf \'package main\\n\\nvar pkger struct{ Open func(...string) }\\n\\nfunc main() { pkger.Open() }\\n\' > main.go\nprintf \'package main\\n\' > pkged.go\nGOFLAGS=-mod=mod GOPROXY=off "$w/pkger" >/dev/null 2>&1 && { echo "packed"; exit 1; }\nif [ -e pkged.go ]; then echo "the earlier file is still there"; exit 1; fi\nexit 0\n'
