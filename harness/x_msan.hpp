// P09, second stage: MemorySanitizer on the library, outputs checked at the API boundary.
extern "C" long g_msan_bytes;
static void m_uninit(Ctx &X, uint64_t k) { long b = g_msan_bytes; m_memory(X, k); X.hit("output bytes checked to be initialised", g_msan_bytes - b); }
static void extra_modes(std::map<std::string, Mode> &M) { M["uninit"] = m_uninit; }
