inline int use_StringUtils() { auto u = Nz::ToUtf8String(std::string("abc")); std::string s(Nz::FromUtf8String(u)); auto v = Nz::ToUtf8String(std::string_view("ab")); return s == "abc" && v.size() == 2 ? 0 : 1; }
