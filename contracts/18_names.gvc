// C18: names shown by the file-system view.
//
// A valid relative path: elements separated by single slashes, none of them
// empty, "." or "..".
pure eltStart(s str, k int) bool = k == 0 || s[k - 1] == '/'
pure eltEnd(s str, k int) bool = k >= len(s) || s[k] == '/'
pure badElt(s str, k int) bool = eltEnd(s, k) || s[k] == '.' && (eltEnd(s, k + 1) || s[k + 1] == '.' && eltEnd(s, k + 2))
rec validRel(s str) bool = len(s) > 0 && (forall k :: {s[k]} 0 <= k && k < len(s) && eltStart(s, k) ==> !badElt(s, k)) && s[len(s) - 1] != '/'

// what path.Clean returns: "." or an optional slash, parent references (only
// without the slash), and a valid relative path
uf cleanOf(s str) str
rec cleanRel(s str) bool = s == ".." || validRel(s) || (len(s) > 3 && s[0] == '.' && s[1] == '.' && s[2] == '/' && cleanRel(s[3:len(s)]))
extern path.Clean(p) (r)
  ensures r == cleanOf(p) && len(r) > 0
  ensures r == "." || r == "/" || (r[0] == '/' ? validRel(r[1:len(r)]) : cleanRel(r))
uf slashes(s str) str
extern strings.ReplaceAll(s, from, to) (r)
  ensures from == "\\" && to == "/" ==> r == slashes(s) && len(r) == len(s)

// the name without leading slash and parent references
pure unroot(s str) str = len(s) > 0 && s[0] == '/' ? s[1:len(s)] : s
rec unparent(s str) str = len(s) >= 3 && s[0] == '.' && s[1] == '.' && s[2] == '/' ? unparent(s[3:len(s)]) : s
rec shown(s str) str = (let p = unparent(unroot(cleanOf(slashes(s)))) :: p == "." || p == ".." ? "" : p)

func sevenzip.toValidName(name) (r)
  props C18, C04
  loop 1
    invariant [clean] p == "" || p == "." || cleanRel(p)
    invariant [same] unparent(p) == unparent(unroot(cleanOf(slashes(old(name)))))
    decreases len(p)
  ensures [valid] len(r) > 0 ==> validRel(r)
  ensures [name] r == shown(name)
