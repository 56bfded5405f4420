From 80da41403b0298ec93838de5841330463ed34c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:10 +0000
Subject: [PATCH 01/24] fix: stdos MkdirAll resolves the parsed name, not the
 raw argument

MkdirAll("pkg:/dir") created a directory literally called "pkg:" below the
module, and a name with .. elements left the package directory.
---
 pkging/stdos/stdos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b811702..42259d7 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -91,7 +91,7 @@ func (f *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	return os.MkdirAll(filepath.Join(info.Dir, p), perm)
+	return os.MkdirAll(filepath.Join(info.Dir, pt.Name), perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From 219851e6737523f5461e9497415a43f496979e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:11 +0000
Subject: [PATCH 02/24] fix: names cannot leave the package through back
 slashes

here.Info.Parse turns back slashes into separators after it cleaned the name,
so /x\..\..\secret opened a file outside of the package directory.
---
 pkging/mem/mem.go     | 8 +++++++-
 pkging/stdos/stdos.go | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1590e3e..9d2b812 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -49,7 +49,13 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	pt, err := f.Here.Parse(p)
+	if err != nil {
+		return pt, err
+	}
+	// back slashes become separators after the name was cleaned
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
 }
 
 // Remove removes the named file or (empty) directory.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 42259d7..5f006a0 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -3,6 +3,7 @@ package stdos
 import (
 	"fmt"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 
@@ -130,7 +131,13 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	pt, err := f.Here.Parse(p)
+	if err != nil {
+		return pt, err
+	}
+	// back slashes become separators after the name was cleaned
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From c564a6aae8e2f15053f6391abcc4950687b15228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:37 +0000
Subject: [PATCH 03/24] fix: opening a file below a directory handle stays
 below that directory

Both implementations of File.Open let a name with .. elements (or the back
slash form a request can carry) name a file outside of the directory, the
disk implementation forgot the package of the directory, and the in memory
one returned the handle itself for a name equal to its own path, so that
requests served from one handle shared its read position.
---
 pkging/mem/file.go   | 14 ++++----------
 pkging/stdos/file.go |  7 +++++--
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2d4d244..f96bd1d 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -168,16 +169,9 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	pt, err := f.Here.Parse(name)
-	if err != nil {
-		return nil, err
-	}
-
-	if pt == f.path {
-		return f, nil
-	}
-
-	pt.Name = path.Join(f.Path().Name, pt.Name)
+	pt := f.Path()
+	name = strings.Replace(name, "\\", "/", -1)
+	pt.Name = path.Join(pt.Name, path.Clean("/"+name))
 
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 35845cf..4104c17 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -4,6 +4,7 @@ import (
 	"net/http"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -45,8 +46,10 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	fp := path.Join(f.Path().Name, name)
-	f2, err := f.pkging.Open(fp)
+	pt := f.Path()
+	name = strings.Replace(name, "\\", "/", -1)
+	pt.Name = path.Join(pt.Name, path.Clean("/"+name))
+	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 53e1ff0b576d71d0c0c76e16b7db41b1bf1475ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:38 +0000
Subject: [PATCH 04/24] fix: close the files that are not handed to the caller

Dir.Open never closed the directory it opens for every request, and the disk
implementation leaked the file when its Stat failed.
---
 pkger.go              | 1 +
 pkging/stdos/stdos.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pkger.go b/pkger.go
index 5f56a51..657c130 100644
--- a/pkger.go
+++ b/pkger.go
@@ -36,6 +36,7 @@ func (d Dir) Open(name string) (http.File, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	return f.Open(name)
 }
 
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 5f006a0..091f66c 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -56,6 +56,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 
 	info, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	nf.info = pkging.NewFileInfo(info)
@@ -122,6 +123,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 	info, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	nf.info = pkging.NewFileInfo(info)
-- 
2.43.0


From 2c9bb7edf2211cce74cb9497bdf511821293f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:31 +0000
Subject: [PATCH 05/24] fix: mem Walk and RemoveAll stop at path element and
 package borders

RemoveAll("/foo") also removed /foobar, and /foo of every other package.
Walk("/foo") visited /foobar; SkipDir for /a/b hid /a/bc; the order of
keys let /a/b-c come between /a/b and /a/b/x, unlike on disk; and SkipDir
for a file did not skip the rest of its directory.
---
 pkging/mem/mem.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 9d2b812..103c633 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -81,7 +82,7 @@ func (fx *Pkger) RemoveAll(name string) error {
 	}
 
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
-		if strings.HasPrefix(key.Name, pt.Name) {
+		if within(key, pt) {
 			fx.files.Delete(key)
 		}
 		return true
@@ -213,21 +214,22 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
 func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	keys := f.files.Keys()
+	// a directory comes right before its own content, as on disk
+	sort.SliceStable(keys, func(a, b int) bool {
+		return treeOrder(keys[a].Name) < treeOrder(keys[b].Name)
+	})
 
 	pt, err := f.Parse(p)
 	if err != nil {
 		return err
 	}
 
-	skip := "!"
+	var skip here.Path
 	for _, k := range keys {
-		if k.Pkg != pt.Pkg {
-			continue
-		}
-		if !strings.HasPrefix(k.Name, pt.Name) {
+		if !within(k, pt) {
 			continue
 		}
-		if strings.HasPrefix(k.Name, skip) {
+		if skip.Name != "" && within(k, skip) {
 			continue
 		}
 
@@ -245,8 +247,11 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
-
-			skip = k.Name
+			skip = k
+			if !fi.IsDir() {
+				// the rest of the directory that has the file
+				skip.Name = path.Dir(k.Name)
+			}
 			continue
 		}
 
@@ -256,3 +261,19 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 	return nil
 }
+
+// within reports whether key names root or something below it.
+func within(key here.Path, root here.Path) bool {
+	if key.Pkg != root.Pkg {
+		return false
+	}
+	if key.Name == root.Name || root.Name == "/" {
+		return true
+	}
+	return strings.HasPrefix(key.Name, root.Name+"/")
+}
+
+// treeOrder maps a name to a key that sorts in the order filepath.Walk visits.
+func treeOrder(name string) string {
+	return strings.Replace(name, "/", "\x00", -1)
+}
-- 
2.43.0


From 547b906aab7beb102df72748deebded3a4c9f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:32 +0000
Subject: [PATCH 06/24] fix: mem Remove refuses a directory that is not empty

It dropped the directory and left its content behind without a parent.
---
 pkging/mem/mem.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 103c633..72df274 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -70,6 +70,15 @@ func (fx *Pkger) Remove(name string) error {
 		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
 	}
 
+	empty := true
+	fx.files.Range(func(key here.Path, file pkging.File) bool {
+		empty = key == pt || !within(key, pt)
+		return empty
+	})
+	if !empty {
+		return &os.PathError{"remove", pt.String(), fmt.Errorf("directory not empty")}
+	}
+
 	fx.files.Delete(pt)
 	return nil
 }
-- 
2.43.0


From 3c9807ffef5d2dee728b2b8ebef7700bbbc9a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 07/24] fix: mem MkdirAll leaves what exists alone

It replaced an existing directory, and turned an existing file into a
directory; it created the parents of another package's directory in the
current one; its directories had no ModeDir, and the root no name.
---
 pkging/mem/mem.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 72df274..e9e8d24 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -144,16 +144,28 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	if fl, ok := fx.files.Load(pt); ok {
+		fi, err := fl.Stat()
+		if err != nil {
+			return err
+		}
+		if !fi.IsDir() {
+			return &os.PathError{"mkdir", pt.String(), fmt.Errorf("not a directory")}
+		}
+		return nil
+	}
+
 	dir, name := path.Split(pt.Name)
 
 	if dir != "/" {
-		if err := fx.MkdirAll(dir, perm); err != nil {
+		parent := here.Path{Pkg: pt.Pkg, Name: path.Clean(dir)}
+		if err := fx.MkdirAll(parent.String(), perm); err != nil {
 			return err
 		}
 	}
 
 	if dir == "/" && name == "" {
-		dir = filepath.Base(fx.Here.Dir)
+		name = filepath.Base(fx.Here.Dir)
 	}
 
 	f := &File{
@@ -164,7 +176,7 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 			Details: pkging.Details{
 				IsDir:   true,
 				Name:    name,
-				Mode:    perm,
+				Mode:    perm | os.ModeDir,
 				ModTime: pkging.ModTime(time.Now()),
 			},
 		},
-- 
2.43.0


From 420beadbd76f361442e8444014a1f4887cb298f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 08/24] fix: mem Create only creates files, and only in
 directories

It ignored a failing MkdirAll, looked for the parent in the current package
instead of the named one, took a file for a parent directory, and replaced a
directory by a file.
---
 pkging/mem/mem.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index e9e8d24..64513e5 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -102,7 +102,9 @@ func (fx *Pkger) RemoveAll(name string) error {
 
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
-	fx.MkdirAll("/", 0755)
+	if err := fx.MkdirAll("/", 0755); err != nil {
+		return nil, err
+	}
 	pt, err := fx.Parse(name)
 	if err != nil {
 		return nil, err
@@ -113,11 +115,26 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	dir := filepath.Dir(pt.Name)
+	dir := path.Dir(pt.Name)
 	if dir != "/" {
-		if _, err := fx.Stat(dir); err != nil {
+		parent := here.Path{Pkg: pt.Pkg, Name: dir}
+		fi, err := fx.Stat(parent.String())
+		if err != nil {
 			return nil, err
 		}
+		if !fi.IsDir() {
+			return nil, &os.PathError{"create", pt.String(), fmt.Errorf("not a directory")}
+		}
+	}
+
+	if fl, ok := fx.files.Load(pt); ok {
+		fi, err := fl.Stat()
+		if err != nil {
+			return nil, err
+		}
+		if fi.IsDir() {
+			return nil, &os.PathError{"create", pt.String(), fmt.Errorf("is a directory")}
+		}
 	}
 
 	f := &File{
@@ -125,7 +142,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		path: pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
-				Name:    filepath.Base(name),
+				Name:    path.Base(pt.Name),
 				Mode:    0644,
 				ModTime: pkging.ModTime(time.Now()),
 			},
-- 
2.43.0


From 2654f3aef40130b649994e47d31908a1a24206c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 09/24] fix: an empty file in memory reads as empty

Read failed instead of returning io.EOF, and Seek accepted every offset,
when the file had no content.
---
 pkging/mem/file.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index f96bd1d..f76a92f 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -32,7 +32,7 @@ type File struct {
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if f.reader == nil {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -71,15 +71,15 @@ func (f *File) Close() error {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
-	if len(f.data) > 0 && f.reader == nil {
-		f.reader = bytes.NewReader(f.data)
+	if f.info != nil && f.info.IsDir() {
+		return 0, fmt.Errorf("unable to read %s", f.Name())
 	}
 
-	if f.reader != nil {
-		return f.reader.Read(p)
+	if f.reader == nil {
+		f.reader = bytes.NewReader(f.data)
 	}
 
-	return 0, fmt.Errorf("unable to read %s", f.Name())
+	return f.reader.Read(p)
 }
 
 // Write writes len(b) bytes to the File. It returns the number of bytes written and an error, if any. Write returns a non-nil error when n != len(b).
-- 
2.43.0


From ea21b17cdc5f4f369ac1916a82f0d1b9cd3bd3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 10/24] fix: mem Readdir continues where it stopped and ends
 with io.EOF

A positive count returned the same first entries for ever and a nil error at
the end, so that a loop over the directory did not terminate.
---
 pkging/mem/file.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index f76a92f..393ad21 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -28,6 +28,7 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
+	dirpos int // entries returned by Readdir so far
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -124,6 +125,10 @@ func (f File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
+	if f.info != nil && !f.info.IsDir() {
+		return nil, &os.PathError{"readdir", f.Name(), fmt.Errorf("not a directory")}
+	}
+
 	var infos []os.FileInfo
 	root := f.Path().String()
 	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
@@ -131,24 +136,12 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 			return err
 		}
 
-		if count > 0 && len(infos) == count {
-			return io.EOF
-		}
-
 		if root == path {
 			return nil
 		}
 
-		pt, err := f.pkging.Parse(path)
-		if err != nil {
-			return err
-		}
-		if pt.Name == f.parent.Name {
-			return nil
-		}
-
 		infos = append(infos, info)
-		if info.IsDir() && path != root {
+		if info.IsDir() {
 			return filepath.SkipDir
 		}
 
@@ -156,15 +149,26 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 	})
 
 	if err != nil {
-		if _, ok := err.(*os.PathError); ok {
-			return infos, nil
+		return nil, err
+	}
+
+	// earlier calls have returned the first ones
+	if f.dirpos > len(infos) {
+		f.dirpos = len(infos)
+	}
+	infos = infos[f.dirpos:]
+
+	if count > 0 {
+		if len(infos) == 0 {
+			return nil, io.EOF
 		}
-		if err != io.EOF {
-			return nil, err
+		if len(infos) > count {
+			infos = infos[:count]
 		}
 	}
-	return infos, nil
+	f.dirpos += len(infos)
 
+	return infos, nil
 }
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
-- 
2.43.0


From 647c762986a29a8e28142da4288e2bc66e5b3e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 11/24] fix: parser does not panic on constants it cannot
 resolve

pkger.Open(name) crashed the tool when name is declared in another file of
the package, or repeats the value of the constant before it.
---
 parser/source.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/source.go b/parser/source.go
index be58036..eeaaae0 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -35,6 +35,10 @@ func (p *ParsedSource) Parse() error {
 
 func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	s = node.Name
+	// declared in another file, or not at all
+	if node.Obj == nil {
+		return
+	}
 	if node.Obj.Kind != ast.Con {
 		return
 	}
@@ -44,7 +48,8 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 		// The const var can be defined inline with other vars,
 		// as in `const a, b = "a", "b"`.
 		for i, v := range x.Names {
-			if v.Name == node.Name {
+			// the value of an implicit repetition is not spelled out
+			if v.Name == node.Name && i < len(x.Values) {
 				s = p.valueNode(x.Values[i])
 				break
 			}
-- 
2.43.0


From 4ea1fac1a00e086575837a64d443a1538ea15dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 12/24] fix: parser reports a declaration that it cannot
 resolve

Parse overwrote the error of the walk with nil, so a declaration that names
an unknown package was left out of the packed files without a word.
---
 parser/parser.go |  3 +++
 parser/source.go | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 72fd023..66c2109 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -84,6 +84,9 @@ func (p *Parser) ParseFile(abs string, mode parser.Mode) (*ParsedSource, error)
 	}
 
 	s.Path, err = s.Here.Parse(strings.TrimPrefix(abs, dir))
+	if err != nil {
+		return nil, err
+	}
 
 	return p.ParseSource(s, 0)
 }
diff --git a/parser/source.go b/parser/source.go
index eeaaae0..545a3f9 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -77,6 +77,10 @@ func (p *ParsedSource) value(node ast.Node) (string, error) {
 func (p *ParsedSource) parse() error {
 	p.decls = map[string]Decls{}
 	var fn walker = func(node ast.Node) bool {
+		if p.err != nil {
+			return false
+		}
+
 		ce, ok := node.(*ast.CallExpr)
 		if !ok {
 			return true
@@ -168,8 +172,8 @@ func (p *ParsedSource) parse() error {
 		n := ce.Args[0]
 		val, err := p.value(n)
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, n)
-			return false
+			// only known when the program runs: nothing to include
+			return true
 		}
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
@@ -202,7 +206,7 @@ func (p *ParsedSource) parse() error {
 		return true
 	}
 	ast.Walk(fn, p.Ast)
-	return nil
+	return p.err
 }
 
 func (p *ParsedSource) DeclsMap() (map[string]Decls, error) {
-- 
2.43.0


From 5b7354ee055f12e1569c7b088374e246385299a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 13/24] fix: parser lists declarations in the order of the
 files

The order followed the iteration of a map, so two runs of pkger parse on the
same module printed different output.
---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 66c2109..54286de 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 
@@ -136,6 +137,9 @@ func (p *Parser) ParseDir(abs string, mode parser.Mode) ([]*ParsedSource, error)
 			srcs = append(srcs, s)
 		}
 	}
+	sort.Slice(srcs, func(i, j int) bool {
+		return srcs[i].Abs < srcs[j].Abs
+	})
 
 	return srcs, nil
 }
-- 
2.43.0


From 8b032645912f1e7efddda850dc0e30b359e6b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:51 +0000
Subject: [PATCH 14/24] fix: parser does not ignore the root because of its
 name

A module in a folder called _app or vendor-portal was packed as if it had no
declarations.
---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 54286de..7dd355d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -208,7 +208,8 @@ func (p *Parser) parse() error {
 
 		base := filepath.Base(path)
 		for _, x := range defaultIgnoredFolders {
-			if strings.HasPrefix(base, x) {
+			// the root is what we were asked to parse, whatever its name
+			if path != root && strings.HasPrefix(base, x) {
 				return filepath.SkipDir
 			}
 		}
-- 
2.43.0


From 2b034ce71ed1e0cedf9840325074f2366831f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:32 +0000
Subject: [PATCH 15/24] fix: first use of a map from several goroutines

Two goroutines could each create the sync.Once, and with it the sync.Map, so
that what one of them stored was lost; and marshaling an unused Infos
dereferenced nil.
---
 internal/maps/files.go | 5 +----
 internal/maps/infos.go | 7 ++-----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index 3b3b6ac..c0a003e 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -17,13 +17,10 @@ import (
 // value: pkging.File
 type Files struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Files) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
diff --git a/internal/maps/infos.go b/internal/maps/infos.go
index 0eed02f..76f2ab2 100644
--- a/internal/maps/infos.go
+++ b/internal/maps/infos.go
@@ -16,13 +16,10 @@ import (
 // value: here.Info
 type Infos struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Infos) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
@@ -33,7 +30,7 @@ func (m *Infos) Data() *sync.Map {
 
 func (m *Infos) MarshalJSON() ([]byte, error) {
 	mm := map[string]interface{}{}
-	m.data.Range(func(key, value interface{}) bool {
+	m.Data().Range(func(key, value interface{}) bool {
 		mm[fmt.Sprintf("%s", key)] = value
 		return true
 	})
-- 
2.43.0


From 5c682a73519e3aed112e06a0aac288ad5126a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:33 +0000
Subject: [PATCH 16/24] fix: incomplete embedded data is an error, not a panic

The JSON null panicked in UnmarshalJSON, and a file without its info in the
first Open of it.
---
 pkging/mem/embed.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index a7086ed..a5b53cd 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -2,6 +2,7 @@ package mem
 
 import (
 	"encoding/json"
+	"fmt"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/internal/maps"
@@ -49,7 +50,7 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 		Files: map[string]embed.File{},
 	}
 
-	if err := json.Unmarshal(b, &y); err != nil {
+	if err := json.Unmarshal(b, y); err != nil {
 		return err
 	}
 
@@ -61,6 +62,9 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 
 	p.files = &maps.Files{}
 	for k, v := range y.Files {
+		if v.Info == nil {
+			return fmt.Errorf("no file info for %s", k)
+		}
 		pt, err := p.Parse(k)
 		if err != nil {
 			return err
-- 
2.43.0


From 2f628040d806c5e978249161b8dc634af2d95880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:03 +0000
Subject: [PATCH 17/24] fix: packing leaves a complete file or none, and says
 which

Stuff dropped the error of its write, Package the errors of its own writes
and of Close, and it returned nil after a panic; when a file could not be
packed half of pkged.go stayed behind and broke the build of the package.
---
 cmd/pkger/cmds/pack.go  | 28 +++++++++++++++++++---------
 pkging/pkgutil/stuff.go |  2 +-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index d91e4cf..1d98835 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -1,6 +1,7 @@
 package cmds
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"os"
@@ -123,25 +124,31 @@ func (e *packCmd) Flags() *flag.FlagSet {
 	return e.FlagSet
 }
 
-func Package(info here.Info, out string, decls parser.Decls) error {
+func Package(info here.Info, out string, decls parser.Decls) (err error) {
 	c, err := here.Dir(filepath.Dir(out))
 	if err != nil {
 		return err
 	}
 
 	os.RemoveAll(out)
-	defer func() {
-		if err := recover(); err != nil {
-			os.RemoveAll(out)
-		}
-	}()
 
-	f, err := os.Create(out)
+	file, err := os.Create(out)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	done := false
+	defer func() {
+		cerr := file.Close()
+		if err == nil {
+			err = cerr
+		}
+		// half a file would break the build of the package
+		if !done || err != nil {
+			os.RemoveAll(out)
+		}
+	}()
 
+	f := bufio.NewWriter(file)
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
 	fmt.Fprintf(f, "package %s\n\n", c.Name)
@@ -155,5 +162,8 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 
 	fmt.Fprintf(f, "`)))\n")
 
-	return nil
+	// the first failed write is kept by f
+	err = f.Flush()
+	done = true
+	return err
 }
diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 0fbf02d..1169a30 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -57,5 +57,5 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 	}
 
 	_, err = w.Write(b)
-	return nil
+	return err
 }
-- 
2.43.0


From d8f0ce59afabf0b74505b80baec0e53d0f86015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:04 +0000
Subject: [PATCH 18/24] fix: stdos Walk leaves errors to the walk function

A file that could not be read ended the walk, instead of being passed to the
function that is documented to decide.
---
 pkging/stdos/stdos.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 091f66c..92a7151 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -177,11 +177,7 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 
 	fp := filepath.Join(info.Dir, pt.Name)
-	err = filepath.Walk(fp, func(path string, fi os.FileInfo, err error) error {
-		if err != nil {
-			return err
-		}
-
+	err = filepath.Walk(fp, func(path string, fi os.FileInfo, werr error) error {
 		pt, err := f.Parse(fmt.Sprintf("%s:%s", pt.Pkg, path))
 		if err != nil {
 			return err
@@ -195,6 +191,13 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 		path = strings.TrimPrefix(path, info.Dir)
 		path = strings.ReplaceAll(path, "\\", "/")
 		pt.Name = path
+		if werr != nil {
+			// fi is nil when the file itself could not be read
+			if fi != nil {
+				fi = pkging.NewFileInfo(fi)
+			}
+			return wf(pt.String(), fi, werr)
+		}
 		return wf(pt.String(), pkging.NewFileInfo(fi), nil)
 	})
 
-- 
2.43.0


From 00896b4019ff2c46a12cf93ddd61c1b1f7281708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 19/24] fix: directories without Go files keep their own module

here.Dir remembered what it found by import path, which is empty for every
directory without Go files: the second such directory, in whatever module,
got the info of the first one.
---
 here/here.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index f87a061..146dd80 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,8 @@
 package here
 
 import (
+	"sync"
+
 	"github.com/gobuffalo/here"
 )
 
@@ -9,6 +11,22 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Dir = Here.Dir
 var Package = Here.Package
 var Current = Here.Current
+
+var dirs sync.Map
+
+// Dir returns the Info of the directory. Here.Dir remembers what it found
+// by import path, which is empty for every directory without Go files, and
+// the same for two modules of one name; this remembers by directory.
+func Dir(p string) (Info, error) {
+	if i, ok := dirs.Load(p); ok {
+		return i.(Info), nil
+	}
+	i, err := here.Dir(p)
+	if err != nil {
+		return i, err
+	}
+	dirs.Store(p, i)
+	return i, nil
+}
-- 
2.43.0


From ef74575e1bd2bb48ea744f03d0a4d766580375b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:35 +0000
Subject: [PATCH 20/24] fix: files of other modules are packed under their own
 module

Add stored them under their place on the disk in the current module, so that
the name that was declared and listed could not be opened in the packed
program; and adding a directory failed in a module without Go files at its
root.
---
 pkging/mem/add.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a77379a..0fe8ac6 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -19,10 +21,6 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
-		pt, err := fx.Parse(f.Name())
-		if err != nil {
-			return err
-		}
 
 		dir := f.Name()
 		if !info.IsDir() {
@@ -33,6 +31,10 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
+		pt, err := fx.pathOf(f.Name(), her.Module)
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			err = filepath.Walk(f.Name(), func(path string, info os.FileInfo, err error) error {
 				if err != nil {
@@ -45,12 +47,7 @@ func (fx *Pkger) Add(files ...*os.File) error {
 				}
 				defer f.Close()
 
-				pt, err := fx.Parse(path)
-				if err != nil {
-					return err
-				}
-
-				her, err := here.Package(pt.Pkg)
+				pt, err := fx.pathOf(path, her.Module)
 				if err != nil {
 					return err
 				}
@@ -102,3 +99,18 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 	return nil
 }
+
+// pathOf returns the path by which a program names the file: files outside
+// of the current module belong to the module they are in.
+func (fx *Pkger) pathOf(abs string, mod here.Module) (here.Path, error) {
+	if mod.Path == fx.Here.Module.Path || below(abs, fx.Here.Dir) || !below(abs, mod.Dir) {
+		return fx.Parse(abs)
+	}
+	name := filepath.ToSlash(strings.TrimPrefix(abs, mod.Dir))
+	return fx.Parse(mod.Path + ":" + path.Join("/", name))
+}
+
+// below reports whether the file is the directory or in it.
+func below(abs string, dir string) bool {
+	return abs == dir || strings.HasPrefix(abs, dir+string(filepath.Separator))
+}
-- 
2.43.0


From cd14c07c764b34685e6b3734e0f3a4da634ce2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:16 +0000
Subject: [PATCH 21/24] fix: packed files are stored by their place in the
 module

Packing from a directory below the root of the module stored the other files
under their absolute path, and a colon in a file's name cut the name off, so
that they could not be opened in the packed program.
---
 pkging/mem/add.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index 0fe8ac6..855fc97 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -100,17 +100,20 @@ func (fx *Pkger) Add(files ...*os.File) error {
 	return nil
 }
 
-// pathOf returns the path by which a program names the file: files outside
-// of the current module belong to the module they are in.
+// pathOf returns the path by which a program names the file: its place in
+// the current module or, outside of that, in the module it is in.
 func (fx *Pkger) pathOf(abs string, mod here.Module) (here.Path, error) {
-	if mod.Path == fx.Here.Module.Path || below(abs, fx.Here.Dir) || !below(abs, mod.Dir) {
+	if below(abs, fx.Here.Module.Dir) {
+		mod = fx.Here.Module
+	}
+	if !below(abs, mod.Dir) {
 		return fx.Parse(abs)
 	}
 	name := filepath.ToSlash(strings.TrimPrefix(abs, mod.Dir))
-	return fx.Parse(mod.Path + ":" + path.Join("/", name))
+	return here.Path{Pkg: mod.Path, Name: path.Join("/", name)}, nil
 }
 
 // below reports whether the file is the directory or in it.
 func below(abs string, dir string) bool {
-	return abs == dir || strings.HasPrefix(abs, dir+string(filepath.Separator))
+	return len(dir) > 0 && (abs == dir || strings.HasPrefix(abs, dir+string(filepath.Separator)))
 }
-- 
2.43.0


From 48ea7e292303112998517cb22ed6252b43467fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:41 +0000
Subject: [PATCH 22/24] fix: walked files keep the package and path of their
 own module

A file that sorts after a directory holding another module got the package
info of that module and a path without its own; and a colon in the name of a
file cut its path off.
---
 parser/walk.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index eed6d91..5181725 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -53,28 +53,28 @@ func (d WalkDecl) Value() (string, error) {
 func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 	var files []*File
 
-	her := d.file.Here
-	pt := d.file.Path
-
-	root := filepath.Join(her.Module.Dir, pt.Name)
+	root := filepath.Join(d.file.Here.Module.Dir, d.file.Path.Name)
 
 	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
 
-		if info.IsDir() {
-			her, err = here.Dir(path)
-			if err != nil {
-				return err
-			}
+		// the directory visited last may be one of another module
+		dir := path
+		if !info.IsDir() {
+			dir = filepath.Dir(path)
+		}
+		her, err := here.Dir(dir)
+		if err != nil {
+			return err
 		}
 
 		n := strings.TrimPrefix(path, her.Module.Dir)
 
-		pt, err := her.Parse(n)
-		if err != nil {
-			return err
+		pt := here.Path{Pkg: her.Module.Path, Name: n}
+		if len(n) == 0 {
+			pt.Name = "/"
 		}
 
 		if _, ok := virtual[n]; ok {
-- 
2.43.0


From 299975c83668d0cd2c5142ff2e1ce0ee85e58d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:23 +0000
Subject: [PATCH 23/24] fix: a directory the program makes itself need not
 exist to be walked

pkger.Walk of a path that pkger.MkdirAll makes at run time failed the
packing, while Open, Stat and Dir of it did not.
---
 parser/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/walk.go b/parser/walk.go
index 5181725..03defa6 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -51,6 +51,10 @@ func (d WalkDecl) Value() (string, error) {
 }
 
 func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
+	if _, ok := virtual[d.value]; ok {
+		return nil, nil
+	}
+
 	var files []*File
 
 	root := filepath.Join(d.file.Here.Module.Dir, d.file.Path.Name)
-- 
2.43.0


From 4e02405ac6cec6be8a3ff659dca44e7aaefcd7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:58 +0000
Subject: [PATCH 24/24] fix: a directory made in another package keeps that
 package's info

---
 pkging/mem/mem.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 64513e5..dea5f86 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -181,12 +181,17 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 		}
 	}
 
+	her, ok := fx.infos.Load(pt.Pkg)
+	if !ok {
+		her = fx.Here
+	}
+
 	if dir == "/" && name == "" {
-		name = filepath.Base(fx.Here.Dir)
+		name = filepath.Base(her.Dir)
 	}
 
 	f := &File{
-		Here:   fx.Here,
+		Here:   her,
 		pkging: fx,
 		path:   pt,
 		info: &pkging.FileInfo{
-- 
2.43.0

