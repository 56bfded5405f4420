prop='C34'
pkg='cmd/pkger/cmds'
edits=[('cmd/pkger/cmds/stat.go', '''		f, err := pkger.Open(a)
		if err != nil {
			return err
		}
		defer f.Close()

		fi, err := f.Stat()
''', '''		f, err := pkger.Open(a)
		defer f.Close()
		if err != nil {
			return err
		}

		fi, err := f.Stat()
''')]
needs='stat of a name that cannot be opened'
breaks='the tool panics instead of saying so'
demo='package cmds\n\nimport (\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tif err := (&statCmd{}).Exec([]string{"/no/such/file"}); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n'
