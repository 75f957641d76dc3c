// C17: file modes.

// bits of fs.FileMode
pure fmDir() u32 = u32(0x80000000)
purebv unixType(t u32) u32 = t == 1 ? u32(0x2000000) : t == 2 ? u32(0x4200000) : t == 4 ? u32(0x80000000) : t == 6 ? u32(0x4000000) : t == 10 ? u32(0x8000000) : t == 12 ? u32(0x1000000) : u32(0)
purebv unixMode(m u32) u32 = (m & 0x1ff) | unixType((m >> 12) & 0xf) | ((m & 0x800) != 0 ? u32(0x800000) : u32(0)) | ((m & 0x400) != 0 ? u32(0x400000) : u32(0)) | ((m & 0x200) != 0 ? u32(0x100000) : u32(0))
purebv dosMode(a u32) u32 = (((a & 0x10) != 0 ? u32(0x800001ff) : u32(0x1b6)) & ((a & 1) != 0 ? u32(0xffffff6d) : u32(0xffffffff)))
purebv attrMode(a u32) u32 = (a >> 28) != 0 ? unixMode(a >> 16) : dosMode(a)

func sevenzip.FileHeader.Mode(h) (mode)
  mode bv
  props C17, C04
  requires h != nil
  ensures [value] u32(mode) == attrMode(h.Attributes)
  ensures [one] ((u32(mode) & 0x80000000) != 0 ? 1 : 0) + ((u32(mode) & 0x0f280000) != 0 ? 1 : 0) <= 1

func sevenzip.headerFileInfo.Mode(fi) (mode)
  props C17, C04
  requires fi.fh != nil
  ensures [value] u32(mode) == attrMode(fi.fh.Attributes)

func sevenzip.headerFileInfo.Type(fi) (mode)
  mode bv
  props C17, C04
  requires fi.fh != nil
  ensures [value] u32(mode) == attrMode(fi.fh.Attributes) & 0x8f280000

func sevenzip.headerFileInfo.IsDir(fi) (dir)
  mode bv
  props C17, C04
  requires fi.fh != nil
  ensures [value] dir == ((attrMode(fi.fh.Attributes) & 0x80000000) != 0)

func sevenzip.headerFileInfo.Size(fi) (n)
  mode bv
  props C17, C19, C04
  requires fi.fh != nil
  ensures [value] u64(n) == fi.fh.UncompressedSize

func sevenzip.headerFileInfo.Info(fi) (i, err)
  props C17, C04
  ensures [self] err == nil && is(i, "sevenzip.headerFileInfo") && dyn(i, "sevenzip.headerFileInfo").fh == fi.fh

func sevenzip.FileHeader.FileInfo(h) (i)
  props C17, C04
  ensures [self] is(i, "sevenzip.headerFileInfo") && dyn(i, "sevenzip.headerFileInfo").fh == h

// directories in the file-system view
func sevenzip.fileListEntry.Mode(e) (mode)
  mode bv
  props C17, C04
  ensures [value] u32(mode) == 0x8000016d

func sevenzip.fileListEntry.Type(e) (mode)
  mode bv
  props C17, C04
  ensures [value] u32(mode) == 0x80000000

func sevenzip.fileListEntry.IsDir(e) (dir)
  props C17, C04
  ensures [value] dir
