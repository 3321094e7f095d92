inline int use_PathUtils() { return Nz::PathToString(Nz::Utf8Path("a/b")) == "a/b" ? 0 : 1; }
