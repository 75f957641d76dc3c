// C19: the tree of the file-system view.
//
// strings are ordered byte by byte: all that matters is that it is a total order
uf strlt(a str, b str) bool
axiom strlt_irr(a str)
  ensures !strlt(a, a)
  auto {strlt(a, a)}
axiom strlt_asym(a str, b str)
  ensures strlt(a, b) ==> !strlt(b, a)
  auto {strlt(a, b)}
axiom strlt_trans(a str, b str, c str)
  ensures strlt(a, b) && strlt(b, c) ==> strlt(a, c)
  auto {strlt(a, b), strlt(b, c)}
axiom strlt_total(a str, b str)
  ensures strlt(a, b) || strlt(b, a) || a == b
  auto {strlt(a, b)}

// the last slash before position k
rec lastSlash(s str, k int) int = k <= 0 ? 0 - 1 : (s[k - 1] == '/' ? k - 1 : lastSlash(s, k - 1))
pure untrail(s str) str = len(s) > 0 && s[len(s) - 1] == '/' ? s[0:len(s) - 1] : s
pure dirOf1(s str) str = (let i = lastSlash(s, len(s)) :: i < 0 ? "." : s[0:i])
pure elemOf1(s str) str = (let i = lastSlash(s, len(s)) :: i < 0 ? s : s[i + 1:len(s)])
rec dirOf(s str) str = dirOf1(untrail(s))
rec elemOf(s str) str = elemOf1(untrail(s))

func sevenzip.split(name) (dir, elem)
  props C19, C04
  loop 1
    invariant [scan] 0 - 1 <= i && i < len(name) && lastSlash(name, len(name)) == lastSlash(name, i + 1) && name == untrail(old(name))
  ensures [dir] dir == dirOf(name)
  ensures [elem] elem == elemOf(name)

func sevenzip.fileEntryLess(x, y) (r)
  props C19, C04
  ensures r == (strlt(dirOf(x), dirOf(y)) || dirOf(x) == dirOf(y) && strlt(elemOf(x), elemOf(y)))

axiom strext(a str, b str)
  requires len(a) == len(b) && forall k :: {a[k]} 0 <= k && k < len(a) ==> a[k] == b[k]
  ensures a == b
lemma lastSlash_in(s str, k int)
  requires k >= 0
  ensures 0 - 1 <= lastSlash(s, k) && lastSlash(s, k) < k && (lastSlash(s, k) >= 0 ==> s[lastSlash(s, k)] == '/') || k == 0
  induct k
  auto {lastSlash(s, k)}
lemma prefEq(x str, y str, i int, j int)
  requires 0 <= i && i <= len(x) && 0 <= j && j <= len(y) && x[0:i] == y[0:j]
  ensures i == j && forall k :: {x[k]} 0 <= k && k < i ==> x[k] == y[k]
lemma suffEq(x str, y str, i int)
  requires 0 <= i && i <= len(x) && i <= len(y) && x[i:len(x)] == y[i:len(y)]
  ensures len(x) == len(y) && forall k :: {x[k]} i <= k && k < len(x) ==> x[k] == y[k]
lemma valid_len(s str)
  requires validRel(s)
  ensures len(s) > 0 && s != "."
  auto {validRel(s)}
// a valid path is determined by its directory and last element
lemma splitInj(x str, y str)
  requires validRel(x) && validRel(y) && dirOf(x) == dirOf(y) && elemOf(x) == elemOf(y)
  ensures x == y
  use strext(x, y)
  use prefEq(x, y, lastSlash(x, len(x)), lastSlash(y, len(y)))
  use suffEq(x, y, lastSlash(x, len(x)) + 1)
  use lastSlash_in(x, len(x))
  use lastSlash_in(y, len(y))
  auto {dirOf(x), dirOf(y)}

// the order of the list
pure entLess(a str, b str) bool = strlt(dirOf(a), dirOf(b)) || dirOf(a) == dirOf(b) && strlt(elemOf(a), elemOf(b))
pure sorted(f) bool = forall i, j :: {f[i].name, f[j].name} 0 <= i && i < j && j < len(f) ==> !entLess(f[j].name, f[i].name)
pure namesOK(f) bool = forall k :: {f[k].name} 0 <= k && k < len(f) ==> validRel(f[k].name)


func sevenzip.Reader.openLookup(z, name) (r)
  props C19, C04
  hide dirOf, elemOf
  requires z != nil && sorted(z.fileList) && namesOK(z.fileList) && (name == "." || validRel(name))
  ensures [root] name == "." ==> r == dotFile
  ensures [hit] name != "." && r != nil ==> r.name == name
  ensures [miss] name != "." && r == nil ==> forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> z.fileList[k].name != name

func sevenzip.Reader.openReadDir(z, dir) (r)
  props C19, C04
  hide dirOf, elemOf, validRel
  requires z != nil && sorted(z.fileList) && namesOK(z.fileList)
  ensures [same] arr(r) == arr(z.fileList) && off(z.fileList) <= off(r) && off(r) + len(r) <= off(z.fileList) + len(z.fileList)
  ensures [children] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> (dirOf(z.fileList[k].name) == dir <==> off(r) - off(z.fileList) <= k && k < off(r) - off(z.fileList) + len(r))

// directory reads
pure entOK(f, k int) bool = f[k].isDir || f[k].isDup || f[k].file != nil
pure entsOK(f) bool = forall k :: {f[k].isDir} 0 <= k && k < len(f) ==> entOK(f, k)
pure shows(x, f, k int) bool = f[k].isDir ? is(x, "*sevenzip.fileListEntry") && ref(x) == elemref(f, k) : is(x, "sevenzip.headerFileInfo")

func sevenzip.openDir.ReadDir(d, count) (list, err)
  props C19, C04
  requires d != nil && 0 <= d.offset && d.offset <= len(d.files) && len(d.files) <= 0x40000000000 && entsOK(d.files)
  modifies d.offset
  loop 1
    invariant [list] len(list) == n && fresh(arr(list)) && d.offset == old(d.offset)
    invariant [nodup] forall k :: {d.files[k].isDup} old(d.offset) <= k && k < old(d.offset) + $i ==> !d.files[k].isDup
    invariant [shows] forall k :: {list[k]} 0 <= k && k < $i ==> shows(list[k], d.files, old(d.offset) + k)
  ensures [pos] 0 <= d.offset && d.offset <= len(d.files) && d.files == old(d.files)
  ensures [piece] err == nil ==> d.offset == old(d.offset) + len(list) && (count > 0 ==> 0 < len(list) && len(list) <= count) && (count > 0 && len(list) < count ==> d.offset == len(d.files)) && (count <= 0 ==> d.offset == len(d.files))
  ensures [entries] err == nil ==> forall k :: {list[k]} 0 <= k && k < len(list) ==> shows(list[k], d.files, old(d.offset) + k)
  ensures [stay] err != nil ==> d.offset == old(d.offset) && len(list) == 0
  ensures [eof] old(d.offset) == len(d.files) && count > 0 ==> err == io.EOF
  ensures [end] err == io.EOF ==> old(d.offset) == len(d.files) && count > 0
  ensures [dup] err != nil && old(d.offset) < len(d.files) ==> exists k :: old(d.offset) <= k && k < len(d.files) && d.files[k].isDup
  ensures [nodup] err == nil ==> forall k :: {d.files[k].isDup} old(d.offset) <= k && k < d.offset ==> !d.files[k].isDup

ghost done bool
// path.Dir of a valid path
extern path.Dir(p) (r)
  ensures validRel(p) ==> r == dirOf(p)
lemma dir_valid(x str)
  requires validRel(x)
  ensures dirOf(x) == "." || validRel(dirOf(x)) && len(dirOf(x)) < len(x)
  use lastSlash_in(x, len(x))
  auto {dirOf(x)}

pure isDirName(s str) bool = len(s) > 0 && s[len(s) - 1] == '/'
pure inside(f, d str) bool = d == "." || (exists j :: 0 <= j && j < len(f) && f[j].name == d)

// the entry of a file: other files of the same name make it a duplicate
pure standsFor(f, k int, x) bool = f[k].isDup || f[k].file == x

func sevenzip.Reader.initFileList(z) ()
  props C18, C19, C04
  hide dirOf, elemOf, shown, validRel
  requires z != nil && (!z.fileListOnce.done ==> z.fileList == nil) && (z.fileListOnce.done ==> namesOK(z.fileList) && sorted(z.fileList) && entsOK(z.fileList))
  requires forall j :: {z.File[j]} 0 <= j && j < len(z.File) ==> z.File[j] != nil
  modifies z.fileList, z.fileListOnce.done
  loop 1
    invariant [fresh] arr(z.fileList) == 0 || fresh(arr(z.fileList))
    invariant [names] namesOK(z.fileList)
    invariant [ents] entsOK(z.fileList)
    invariant [files] forall s str :: {has(files, s)} has(files, s) ==> 0 <= files[s] && files[s] < len(z.fileList) && z.fileList[files[s]].name == s
    invariant [known] forall s str :: {has(knownDirs, s)} has(knownDirs, s) ==> 0 <= knownDirs[s] && knownDirs[s] < len(z.fileList) && z.fileList[knownDirs[s]].name == s
    invariant [index] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> (let s = z.fileList[k].name :: has(files, s) && files[s] == k || has(knownDirs, s) && knownDirs[s] == k)
    invariant [either] forall s str :: {has(files, s)} has(files, s) ==> !has(knownDirs, s)
    invariant [dirs] forall s str :: {has(dirs, s)} has(dirs, s) ==> validRel(s)
    invariant [closed] forall s str :: {has(dirs, s), dirOf(s)} has(dirs, s) ==> dirOf(s) == "." || has(dirs, dirOf(s))
    invariant [up] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> dirOf(z.fileList[k].name) == "." || has(dirs, dirOf(z.fileList[k].name))
    invariant [all] forall j :: {z.File[j]} 0 <= j && j < $i ==> shown(z.File[j].Name) == "" || has(files, shown(z.File[j].Name)) && standsFor(z.fileList, files[shown(z.File[j].Name)], z.File[j]) || has(knownDirs, shown(z.File[j].Name)) && standsFor(z.fileList, knownDirs[shown(z.File[j].Name)], z.File[j])
    invariant [shown] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) && z.fileList[k].file != nil ==> shown(z.fileList[k].file.Name) == z.fileList[k].name
    invariant [isdir] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> z.fileList[k].isDir || has(files, z.fileList[k].name) && files[z.fileList[k].name] == k
  loop 2
    invariant [dir] dir == "." || validRel(dir)
    invariant [dirs] forall s str :: {has(dirs, s)} has(dirs, s) ==> validRel(s)
    invariant [closed] forall s str :: {has(dirs, s), dirOf(s)} has(dirs, s) ==> dirOf(s) == "." || has(dirs, dirOf(s)) || dirOf(s) == dir
    invariant [up] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> dirOf(z.fileList[k].name) == "." || has(dirs, dirOf(z.fileList[k].name))
    invariant [own] dirOf(name) == "." || has(dirs, dirOf(name)) || dirOf(name) == dir
    decreases dir == "." ? 0 : len(dir)
  loop 3
    invariant [fresh] arr(z.fileList) == 0 || fresh(arr(z.fileList))
    invariant [names] namesOK(z.fileList)
    invariant [ents] entsOK(z.fileList)
    invariant [files] forall s str :: {has(files, s)} has(files, s) ==> 0 <= files[s] && files[s] < len(z.fileList) && z.fileList[files[s]].name == s
    invariant [known] forall s str :: {has(knownDirs, s)} has(knownDirs, s) ==> 0 <= knownDirs[s] && knownDirs[s] < len(z.fileList) && z.fileList[knownDirs[s]].name == s
    invariant [cover] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> (let s = z.fileList[k].name :: has(files, s) || has(knownDirs, s) || seen(s))
    invariant [unique] forall i, j :: {z.fileList[i].name, z.fileList[j].name} 0 <= i && i < j && j < len(z.fileList) ==> z.fileList[i].name != z.fileList[j].name
    invariant [up] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> dirOf(z.fileList[k].name) == "." || has(dirs, dirOf(z.fileList[k].name))
    invariant [all] forall j :: {z.File[j]} 0 <= j && j < len(z.File) ==> shown(z.File[j].Name) == "" || has(files, shown(z.File[j].Name)) && standsFor(z.fileList, files[shown(z.File[j].Name)], z.File[j]) || has(knownDirs, shown(z.File[j].Name)) && standsFor(z.fileList, knownDirs[shown(z.File[j].Name)], z.File[j])
    invariant [shown] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) && z.fileList[k].file != nil ==> shown(z.fileList[k].file.Name) == z.fileList[k].name
    invariant [clash] forall s str :: {seen(s)} seen(s) && has(files, s) && !has(knownDirs, s) ==> z.fileList[files[s]].isDup
    invariant [isdir] forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> z.fileList[k].isDir || has(files, z.fileList[k].name) && files[z.fileList[k].name] == k
    invariant [added] forall s str :: {seen(s)} seen(s) && !has(files, s) && !has(knownDirs, s) ==> exists k :: 0 <= k && k < len(z.fileList) && z.fileList[k].name == s
  ensures [names] namesOK(z.fileList)
  ensures [sorted] sorted(z.fileList)
  ensures [ents] entsOK(z.fileList)
  ensures [unique] !old(z.fileListOnce.done) ==> forall i, j :: {z.fileList[i].name, z.fileList[j].name} 0 <= i && i < j && j < len(z.fileList) ==> z.fileList[i].name != z.fileList[j].name
  ensures [all] !old(z.fileListOnce.done) ==> forall j :: {z.File[j]} 0 <= j && j < len(z.File) ==> shown(z.File[j].Name) == "" || (exists k :: 0 <= k && k < len(z.fileList) && z.fileList[k].name == shown(z.File[j].Name) && standsFor(z.fileList, k, z.File[j]))
  ensures [up] !old(z.fileListOnce.done) ==> forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) ==> inside(z.fileList, dirOf(z.fileList[k].name))
  ensures [shown] !old(z.fileListOnce.done) ==> forall k :: {z.fileList[k].name} 0 <= k && k < len(z.fileList) && z.fileList[k].file != nil ==> shown(z.fileList[k].file.Name) == z.fileList[k].name
  ensures [done] z.fileListOnce.done
