// C20: volumes. fs.opened[0..nopen) are the files opened through fs, in order;
// oname is the name a file was opened by and fsize its size; fsHas(fs, name)
// tells whether the file system has a file of that name.
ghost nopen int
ghost opened [int]ref
ghost oname str
ghost fsize int
uf fsHas(fs ref, name str) bool
uf cleanPath(name str) str
uf extOf(name str) str

extern path/filepath.Clean(name) (r)
  ensures r == cleanPath(name)
extern path/filepath.Ext(name) (r)
  ensures r == extOf(name) && len(r) <= len(name) && name[len(name) - len(r):len(name)] == r
extern github.com/spf13/afero.Fs.Open(v, name) (f, err)
  modifies v.nopen, v.opened
  ensures err == nil ==> f != nil && fresh(f) && f.closes == 0 && f.oname == name && fsHas(ref(v), name) && v.nopen <= 0x10000000000 && v.nopen == old(v.nopen) + 1 && v.opened == store(old(v.opened), old(v.nopen), ref(f))
  ensures err != nil ==> v.nopen == old(v.nopen) && v.opened == old(v.opened) && (errIs(err, fs.ErrNotExist) ==> !fsHas(ref(v), name))
extern github.com/spf13/afero.File.Stat(f) (info, err)
  ensures err == nil ==> info != nil && info.fsize == f.fsize
extern github.com/spf13/afero.File.Name(f) (n)
  ensures n == f.oname
extern io/fs.FileInfo.Size(i) (n)
  ensures int(n) == i.fsize

// a section of a source
ghost secSrc ref
ghost secOff int
ghost secLen int
ghost secPos int
extern io.NewSectionReader(r, off, n) (s)
  ensures s != nil && fresh(s) && s.secSrc == ref(r) && s.secOff == int(off) && s.secLen == int(n) && s.secPos == 0 && stream(s) && s.pos == 0 && s.start == 0 && s.end <= max(0, int(n))
// parts read one after the other
ghost nparts int
ghost parts [int]ref
extern go4.org/readerutil.NewMultiReaderAt(p) (r)
  ensures r != nil && fresh(r) && r.nparts == len(p) && (forall k :: {p[k]} 0 <= k && k < len(p) ==> r.parts[k] == ref(p[k]))
extern go4.org/readerutil.SizeReaderAt.Size(r) (n)

// the first volume and the non-empty ones among the next k-1
rec pcount(op [int]ref, sz [ref]int, o int, k int) int = k <= 1 ? k : pcount(op, sz, o, k - 1) + (sz[op[o + k - 1]] > 0 ? 1 : 0)
lemma pcount_store(op [int]ref, sz [ref]int, o int, k int, at int, v ref)
  requires 0 <= k && o + k <= at
  ensures pcount(store(op, at, v), sz, o, k) == pcount(op, sz, o, k)
  induct k
  auto {pcount(store(op, at, v), sz, o, k)}
lemma pcount_mono(op [int]ref, sz [ref]int, o int, j int, k int)
  requires 0 <= j && j <= k
  ensures 0 <= pcount(op, sz, o, j) && pcount(op, sz, o, j) <= pcount(op, sz, o, k)
  induct k
  auto {pcount(op, sz, o, j), pcount(op, sz, o, k)}
lemma pcount_strict(op [int]ref, sz [ref]int, o int, j int, k int)
  requires 0 <= j && j < k && (j == 0 || sz[op[o + j]] > 0)
  ensures pcount(op, sz, o, j) < pcount(op, sz, o, k)
  induct k
  auto {pcount(op, sz, o, j), pcount(op, sz, o, k)}
pure volPart(fs, o int, r, k int) bool = (k == 0 || (let x = fs.opened[o + k] :: x.fsize > 0)) ==> (let s = r.parts[pcount(fs.opened, gcomp("fsize"), o, k)] :: s.secSrc == fs.opened[o + k] && s.secOff == 0 && (let x = fs.opened[o + k] :: s.secLen == x.fsize))

pure isMulti(name) bool = extOf(name) == ".001"
pure volNth(name str, n int) str = sprintf("%s.%03d", name[0:len(name) - 4], n)
pure opensOK(fs, files, o int) bool = fs.nopen <= 0x10000000000 && fs.nopen == o + len(files) && (forall k :: {files[k]} 0 <= k && k < len(files) ==> ref(files[k]) == fs.opened[o + k] && files[k] != nil) && (forall j :: {fs.opened[j]} o <= j && j < fs.nopen ==> fs.opened[j] == ref(files[j - o]))

func sevenzip.openReader(fs, name) (r, size, files, err)
  props C20, C04
  requires fs != nil && 0 <= fs.nopen
  modifies fs.nopen, fs.opened
  loop 1
    invariant [files] opensOK(fs, files, old(fs.nopen)) && i == len(files) + 1 && 1 <= len(files)
    invariant [names] files[0].oname == cleanPath(name) && (forall k :: {files[k]} 1 <= k && k < len(files) ==> files[k].oname == volNth(name, k + 1))
    invariant [fresh] forall k :: {files[k]} 0 <= k && k < len(files) ==> fresh(files[k])
    invariant [open] forall k :: {files[k]} 0 <= k && k < len(files) ==> files[k].closes == 0
    invariant [parts] len(sr) == pcount(fs.opened, gcomp("fsize"), old(fs.nopen), len(files))
    invariant [part] forall k :: {files[k]} 0 <= k && k < len(files) && (k == 0 || files[k].fsize > 0) ==> (let s = sr[pcount(fs.opened, gcomp("fsize"), old(fs.nopen), k)] :: s.secSrc == ref(files[k]) && s.secOff == 0 && s.secLen == files[k].fsize)
  loop 2
    invariant [closed] forall k :: {files[k]} 0 <= k && k < len(files) ==> files[k].closes >= (k < $i ? 1 : 0)
  loop 3
    invariant [closed] forall k :: {files[k]} 0 <= k && k < len(files) ==> files[k].closes >= (k < $i ? 1 : 0)
  ensures [single] err == nil && !isMulti(name) ==> len(files) == 1 && ref(r) == ref(files[0]) && int(size) == files[0].fsize
  ensures [opened] err == nil ==> opensOK(fs, files, old(fs.nopen)) && 1 <= len(files)
  ensures [names] err == nil ==> files[0].oname == cleanPath(name) && (forall k :: {files[k]} 1 <= k && k < len(files) ==> files[k].oname == volNth(name, k + 1))
  ensures [all] err == nil && isMulti(name) ==> !fsHas(ref(fs), volNth(name, len(files) + 1))
  ensures [joined] err == nil && isMulti(name) ==> r.nparts == pcount(fs.opened, gcomp("fsize"), old(fs.nopen), len(files))
  ensures [part] err == nil && isMulti(name) ==> forall k :: {files[k]} 0 <= k && k < len(files) ==> volPart(fs, old(fs.nopen), r, k)
  ensures [open] err == nil ==> forall k :: {files[k]} 0 <= k && k < len(files) ==> files[k].closes == 0
  ensures [close] err != nil ==> forall k :: {fs.opened[k]} old(fs.nopen) <= k && k < fs.nopen ==> (let x = fs.opened[k] :: x.closes >= 1)

func sevenzip.ReadCloser.Volumes(rc) (v)
  props C20, C04
  requires rc != nil && (forall k :: {rc.f[k]} 0 <= k && k < len(rc.f) ==> rc.f[k] != nil) && len(rc.f) <= 0x10000000000
  loop 1
    invariant [names] len(volumes) == len(rc.f) && fresh(arr(volumes)) && forall k :: {volumes[k]} 0 <= k && k < $i ==> volumes[k] == rc.f[k].oname
  ensures [names] len(v) == len(rc.f) && forall k :: {v[k]} 0 <= k && k < len(v) ==> v[k] == rc.f[k].oname

func sevenzip.ReadCloser.Close(rc) (err)
  props C20, C04
  requires rc != nil && (forall k :: {rc.f[k]} 0 <= k && k < len(rc.f) ==> rc.f[k] != nil && rc.f[k].closes >= 0) && len(rc.f) <= 0x10000000000
  modifies all(closes)
  loop 1
    invariant [closed] forall k :: {rc.f[k]} 0 <= k && k < len(rc.f) ==> rc.f[k] != nil && rc.f[k].closes >= (k < $i ? 1 : 0)
    invariant [errs] len(errs) == $i && fresh(arr(errs)) && (forall k :: {errs[k]} 0 <= k && k < $i ==> (errs[k] != nil) == rc.f[k].clfail) && (forall k :: {rc.f[k]} 0 <= k && k < $i ==> (errs[k] != nil) == rc.f[k].clfail)
  ensures [closed] forall k :: {rc.f[k]} 0 <= k && k < len(rc.f) ==> rc.f[k].closes >= 1
  ensures [report] err == nil ==> forall k :: {rc.f[k]} 0 <= k && k < len(rc.f) ==> !rc.f[k].clfail
  ensures [success] err != nil ==> exists k :: 0 <= k && k < len(rc.f) && rc.f[k].clfail
