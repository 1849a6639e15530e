/* observation points of the library (PSLP_VERIF_HOOKS) are handed to g_vp */
struct Problem;
void (*g_vp)(const char *where, const struct Problem *prob);
void pslp_verif_point(const char *where, const struct Problem *prob) { if (g_vp) g_vp(where, prob); }
