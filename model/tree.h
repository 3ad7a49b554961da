/* leaves of a tree hash: each block of the input becomes one leaf, whose chaining value goes to the final node in order */
static size_t g_blk, g_rb, g_cap; static unsigned int g_rounds, g_lsuf;
static int g_leaf; static size_t g_lpos;          /* serial leaf: 0 none, 1 open, 2 suffix added; bytes in it */
static unsigned char *g_cv; static size_t g_cvn;  /* chaining values not yet given to the final node */
static size_t g_leaves;                           /* leaves finished */
static int g_last;                                /* finalization: the last leaf may be short */
static void tree_cv(unsigned char *data, unsigned int n) {
    xk_assert(g_cvn == 0, "P17:chaining values reach the final node before the next ones");
    g_cv = data; g_cvn = n * g_cap; g_in += n * g_blk; g_left -= n * g_blk; g_leaves += n;
}
static int tree_absorb_cv(const unsigned char *data, size_t n) {
    if (g_cvn == 0 || !xk_same(data, g_cv)) return 0;
    xk_assert(data == g_cv, "P17:chaining values are absorbed in order");
    xk_assert(n <= g_cvn, "P17:chaining values are absorbed once");
    g_cv += n; g_cvn -= n; if (xk_known_eq(g_cvn, 0)) g_cv = 0; return 1;
}
static void leaf_open(void) { xk_assert(g_leaf == 0, "P17:one serial leaf at a time"); g_leaf = 1; g_lpos = 0; }
static void leaf_absorb(const unsigned char *data, size_t n) {
    xk_assert(g_leaf == 1, "P17:leaf input goes to an open leaf");
    xk_assert(xk_same(data, g_in) && data == g_in, "P01+P14+P17:absorbed bytes are the next input bytes");
    xk_assert(n <= g_left, "P01+P14+P17:no more bytes absorbed than given");
    g_in += n; g_left -= n; g_lpos += n;
    xk_assert(g_lpos <= g_blk, "P17:a leaf absorbs no more than its block");
}
static void leaf_suffix(unsigned int d) {
    xk_assert(d == g_lsuf, "P09+P17:suffix of the leaves");
    xk_assert(g_leaf == 1 && g_lpos > 0 && (g_last || g_lpos == g_blk), "P17:a leaf is closed when its block is complete");
    g_leaf = 2;
}
static void leaf_squeeze(unsigned char *data, size_t n) {
    xk_assert(g_leaf == 2 && n == g_cap, "P17:a chaining value is the closed leaf's first capacity bytes");
    xk_assert(g_cvn == 0, "P17:chaining values reach the final node before the next ones");
    g_cv = data; g_cvn = n; g_leaf = 0; g_lpos = 0; g_leaves++;
}
static void tree_settled(void) {
    xk_assert(g_cvn == 0, "P17:every chaining value reaches the final node");
    xk_assert(g_leaf != 2, "P17:every closed leaf gives its chaining value");
}
