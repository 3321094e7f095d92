inline int use_DebugBreak(bool never) { if (never) NazaraDebugBreak(); return 0; }
inline int use_DebugBreak() { return use_DebugBreak(false); }
