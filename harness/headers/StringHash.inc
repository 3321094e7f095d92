inline int use_StringHash() { return Nz::StringHash<>()("abc") == Nz::StringHash<char>()(std::string_view("abc")) && Nz::StringHash<>()(std::string("abc")) == Nz::StringHash<>()("abc") ? 0 : 1; }
