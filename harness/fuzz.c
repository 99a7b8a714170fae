/* libFuzzer target: [mode][flags] template 0xff data 0xff partial */
#define main hbsdrv_main
#include "hbsdrv.c"
#undef main
static void arg(struct req * r, const void * p, size_t n) { char * c = malloc(n ? n : 1); memcpy(c, p, n); r->p[r->n] = c; r->l[r->n] = n; r->n++; }
static void args(struct req * r, const char * s) { arg(r, s, strlen(s)); }
int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
    static const unsigned long F[8] = { 1, 2, 4, 8, 32, 64, 2048, 256 };
    if (size < 2) return 0;
    int mode = data[0] & 15; unsigned long flags = 0;
    for (int i = 0; i < 8; i++) if (data[1] & (1 << i)) flags |= F[i];
    if (mode & 8) flags |= 4096 | 1;
    const uint8_t * t = data + 2, * e = data + size;
    const uint8_t * d = memchr(t, 0xff, e - t); const uint8_t * te = d ? d : e; d = d ? d + 1 : e;
    const uint8_t * p = memchr(d, 0xff, e - d); const uint8_t * de = p ? p : e; p = p ? p + 1 : e;
    static struct req r; r.n = 0;
    char fl[32]; snprintf(fl, sizeof fl, "%lu", flags);
    if ((mode & 7) >= 5) {
        static const char * W[] = { "ast", "astsrc", "opcodes", "module", "lex" };
        args(&r, "front"); args(&r, W[size % 5]); args(&r, fl); arg(&r, t, te - t);
        op_front(&r);
    } else {
        args(&r, "render"); args(&r, "t"); arg(&r, t, te - t);
        args(&r, "d"); arg(&r, d, de - d); args(&r, "df"); args(&r, (mode & 1) ? "y" : (mode & 2) ? "w" : "j");
        struct buf b = {0};
        bfmt(&b, "{S1:pS%zu:", (size_t) (e - p)); bput(&b, p, e - p); bstr(&b, "S2:q1S7:<{{a}}>}");
        args(&r, "p"); arg(&r, b.p, b.n); args(&r, "pf"); args(&r, "n"); free(b.p);
        args(&r, "h"); args(&r, "hId:id,hCat:cat,hBlk:blk,hCtx:ctx,hBp:bp,hFrame:frame,hList:list,hHash:hash,hThrow:throw,hLam:lamtext,hEnc:enc,hNull:null,hSafe:safe");
        args(&r, "f"); args(&r, fl);
        if (mode & 4) { args(&r, "c"); args(&r, "simple"); args(&r, "runs"); args(&r, "2"); }
        op_render(&r);
    }
    reply.n = 0; freereq(&r);
    return 0;
}
