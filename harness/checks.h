/* facets of the geometry of a drawn box; measure() must have been called */
#ifndef CHECKS_H
#define CHECKS_H
static void check01(void) {
  sym_assert(ih >= nl, "there is a row inside the box for every line"); if (ih < nl) return;
  locate(); if (firstk < 0) { int ok = 1; for (int j = 0; j < ih; j++) ok &= first_nb(textrow0() + j) < 0; sym_assert(ok, "blank text gives a blank inside"); return; }
  int ok = T >= 0 && T + nl <= ih; sym_assert(ok, "all lines are inside the box"); if (!ok) return;
  for (int j = 0; j < ih; j++) {
    int k = j - T, a = first_nb(textrow0() + j); struct row *r = &O[textrow0() + j]; int base = prefix + G.lw, e = vis_w ? base + iw : (r->n > base ? r->n : base);
    if (k < 0 || k >= nl || XL[k]->r.n == 0) { ok &= a < 0; continue; }
    struct row *x = &XL[k]->r; int xi = xfirst(k); if (a < 0 || xi < 0) { ok = 0; continue; }
    for (int i = 0; xi + i < x->n; i++) { ok &= rcell(r, base + a + i) == x->c[xi + i]; ok &= rmark(r, base + a + i) == x->z[xi + i]; }
    ok &= base + a + x->n - xi <= e; ok &= blank_range(r, base + a + x->n - xi, e); }
  sym_assert(ok, "each line stands complete and unchanged in a row of its own, in order"); }
static int bodyE(void) { int k[3] = {ENE, E, ESE}, ok = G.rw > 0; for (int i = 0; i < 3; i++) for (int l = 0; l < G.h[k[i]]; l++) ok &= rcell(&G.r[k[i]][l], G.w[k[i]] - 1) != ' '; int any = 0; for (int i = 0; i < 3; i++) any |= G.h[k[i]]; return ok && any; }
static void check02(void) {
  int ok = 1, n0 = 0; for (int i = 0; i < no; i++) ok &= O[i].ctl == 0;
  sym_assert(ok, "no control characters in the box");
  int be = bodyE(); ok = 1; n0 = TW;
  for (int i = 0; i < no; i++) { int body = i >= G.th && i < no - G.bh; if (G.have[RIGHT] && ((body && be) || (!body && G.rw))) { int cap = 1; if (!body) { int k = i < G.th ? NE : SE, l = i < G.th ? i : i - (no - G.bh); cap = G.h[k] && rcell(&G.r[k][l], G.w[k] - 1) != ' '; } if (cap) ok &= O[i].n == n0; } ok &= blank_range(&O[i], 0, prefix); }
  sym_assert(ok, "all rows end in the same column");
  ok = ih >= 1 && iw >= Wt; sym_assert(ok, "the box has room for the text"); if (!ok) return;
  /* borders: every body row shows one of the rows of the side's shapes at the fixed column */
  for (int i = G.th; i < no - G.bh; i++) for (int s = 0; s < 2; s++) { int side = s ? RIGHT : LEFT; if (!G.have[side]) continue; int x = s ? prefix + G.lw + iw : prefix; int m = 0, any = 0;
      for (int q = 1; q < 4; q++) for (int l = 0; l < G.h[SIDE[side][q]]; l++) { any = 1; m |= same_shape(&O[i], x, SIDE[side][q], l); }
      if (!any) m = blank_range(&O[i], x, x + (s ? G.rw : G.lw)); ok &= m; }
  sym_assert(ok, "side borders stand in a straight column, not overlapped by text");
  ok = 1; if (G.have[LEFT] && G.th) for (int l = 0; l < G.th; l++) ok &= G.h[NW] ? same_shape(&O[l], prefix, NW, l) : blank_range(&O[l], prefix, prefix + G.lw);
  if (G.have[RIGHT] && G.th) for (int l = 0; l < G.th; l++) if (G.h[NE]) ok &= same_shape(&O[l], prefix + G.lw + iw, NE, l);
  if (G.have[LEFT] && G.bh) for (int l = 0; l < G.bh; l++) if (G.h[SW]) ok &= same_shape(&O[no - G.bh + l], prefix, SW, l);
  if (G.have[RIGHT] && G.bh) for (int l = 0; l < G.bh; l++) if (G.h[SE]) ok &= same_shape(&O[no - G.bh + l], prefix + G.lw + iw, SE, l);
  sym_assert(ok, "corners stand in line with the sides"); }
static void check03(void) {
  if (vis_w) { sym_assert(iw >= need_w, "box is wide enough"); sym_assert(!reqw || TW - prefix >= reqw || 0, "box is not narrower than requested"); int all = G.have[LEFT] && G.have[RIGHT]; sym_assert(iw >= lo_iw && (iw <= hi_iw), "box width is the requested or smallest possible one"); }
  sym_assert(ih >= need_h, "box is high enough"); sym_assert(!reqh || no >= reqh, "box is not lower than requested"); int ally = G.have[TOP] && G.have[BOTTOM]; sym_assert(ih >= lo_ih && (ih <= hi_ih), "box height is the requested or smallest possible one"); }
static int vis_k(int k) { int x = xfirst(k); return x < 0 ? 0 : XL[k]->r.n - x; }
static int free_w_(void) { return !reqw || reqw - G.lw - G.rw >= Wt + pl + pr; }
static int free_h_(void) { return !reqh || reqh - G.th - G.bh >= nl + pt + pb; }
static void check04(void) {
  if (!locate()) { sym_assert(!vis_w || reqw || iw >= pl + pr, "room for the padding"); sym_assert(reqh || ih >= nl + pt + pb, "room for the padding"); return; }
  sym_assert(T >= 0 && T + nl <= ih, "text is found inside"); if (T < 0) return;
  int L = first_nb(textrow0() + T + firstk) - xfirst(firstk), R = iw - L - Wt, B = ih - T - nl, ok = 1;
  int free_w = !reqw || reqw - G.lw - G.rw >= Wt + pl + pr, free_h = !reqh || reqh - G.th - G.bh >= nl + pt + pb; /* paddings may only shrink when the requested size leaves no room */
  if (free_w) for (int k = 0; k < nl; k++) if (XL[k]->r.n) { int a = first_nb(textrow0() + T + k); ok &= a >= pl; if (vis_w) ok &= a + vis_k(k) <= iw - pr; }
  if (free_w && !ju) { ok &= L >= pl; if (vis_w) ok &= R >= pr; } sym_assert(ok, "left and right padding at least as requested");
  ok = 1; if (free_h) { ok &= T >= pt; ok &= B >= pb; } sym_assert(ok, "top and bottom padding at least as requested");
  /* a box of the requested size which cannot hold both paddings: both sides give way in turn, down to none */
  if (!free_h && ih >= nl && no == reqh && G.have[TOP] && G.have[BOTTOM]) { int a = pt - T, b = pb - B; sym_assert(a >= 0 && b >= 0 && ((a - b <= 1 && b - a <= 1) || (T == 0 && b >= a) || (B == 0 && a >= b)), "requested height: top and bottom padding give way evenly"); }
  if (!free_w && iw >= Wt && TW - prefix == reqw && vis_w && !ju && G.have[LEFT] && G.have[RIGHT]) { int a = pl - L, b = pr - R; sym_assert(a >= 0 && b >= 0 && ((a - b <= 1 && b - a <= 1) || (L == 0 && b >= a) || (R == 0 && a >= b)), "requested width: left and right padding give way evenly"); }
  ok = 1; if (!ju && !reqw && vis_w && lo_iw == hi_iw && lo_iw == Wt + pl + pr) ok &= (L == pl) & (R == pr); sym_assert(ok, "left and right padding exactly as requested");
  ok = 1; if (!reqh && lo_ih == hi_ih && lo_ih == nl + pt + pb) ok &= (T == pt) & (B == pb); sym_assert(ok, "top and bottom padding exactly as requested"); }
static void check05(void) {
  if (!locate()) return; sym_assert(T >= 0 && T + nl <= ih, "text is found inside"); if (T < 0 || T + nl > ih) return;
  int vroom = ih - nl - pt - pb; if (vroom >= 0 && free_h_()) { int want = pt; int ok = va == 't' ? T == want : va == 'b' ? T == ih - pb - nl : (T - pt) * 2 >= vroom - 1 && (T - pt) * 2 <= vroom + 1; sym_assert(ok, "vertical alignment"); }
  int room = iw - Wt - pl - pr; if (room < 0 || !free_w_()) return; int base = mode == 't' ? common : 0, match = 0;
  for (int c = 0; c < (ha == 'c' && room % 2 ? 2 : 1); c++) { int Lb = ha == 'l' ? pl : ha == 'r' ? iw - pr - Wt : pl + room / 2 + c, ok = 1;
    for (int k = 0; k < nl; k++) { if (!XL[k]->r.n) continue; int a = first_nb(textrow0() + T + k), m = vis_k(k), s = a - Lb;
      switch (ju) { case 'l': ok &= s == base; break; case 'r': ok &= s == Wt - m; break; case 'c': { int r = Wt - base - m; ok &= s - base == r / 2 || s - base == (r + 1) / 2; break; } default: ok &= s == xfirst(k); } }
    match |= ok; }
  sym_assert(match, "horizontal alignment and justification"); }
static void check06(void) {
  int ok = 1; if (mode == 'b') for (int i = 0; i < no; i++) ok &= blank_range(&O[i], 0, prefix); sym_assert(ok, "common indentation in front of every row");
  if (G.have[LEFT]) { ok = 1; for (int i = G.th; i < no - G.bh; i++) { int m = 0, any = 0; for (int q = 1; q < 4; q++) for (int l = 0; l < G.h[SIDE[LEFT][q]]; l++) { any = 1; m |= same_shape(&O[i], prefix, SIDE[LEFT][q], l); } if (any) ok &= m; } sym_assert(ok, "the box starts right behind the indentation"); }
  if (!locate()) { return; } sym_assert(T >= 0 && T + nl <= ih, "text is found inside"); if (T < 0 || T + nl > ih) return;
  if (ju) return;
  int L = first_nb(textrow0() + T + firstk) - xfirst(firstk); if (ha == 'l' && free_w_()) { sym_assert(L == pl || iw != Wt + pl + pr, "indentation inside the box by mode"); }
  if (lo_iw == hi_iw) sym_assert(iw == lo_iw, "the inside is as wide as the text with its remaining indentation");
  ok = 1; for (int k = 0; k < nl; k++) if (XL[k]->r.n) { struct row *r = &O[textrow0() + T + k]; for (int i = 0; i < XL[k]->r.n; i++) ok &= rcell(r, prefix + G.lw + L + i) == XL[k]->r.c[i]; }
  sym_assert(ok, "relative indentation is kept and no character is lost"); }
/* one side: cells at (x0,y0) running along the side must be s1^a s2^b s3^c */
static int side_ok(int side, int ext) {
  int horiz = side == TOP || side == BOTTOM, s[3], e[3], len[3], best = 0; for (int i = 0; i < 3; i++) { s[i] = SIDE[side][i + 1]; len[i] = horiz ? G.w[s[i]] : G.h[s[i]]; e[i] = G.h[s[i]] && (G.d->el & EL(s[i])); if (!G.h[s[i]]) len[i] = 0; }
  if (!len[0] && !len[1] && !len[2]) { int ok = 1; if (horiz) for (int l = 0; l < (side == TOP ? G.th : G.bh); l++) ok &= blank_range(&O[side == TOP ? l : no - G.bh + l], prefix + G.lw, prefix + G.lw + ext); else { int x = side == LEFT ? prefix : prefix + G.lw + iw; for (int j = 0; j < ext; j++) ok &= blank_range(&O[G.th + j], x, x + (side == LEFT ? G.lw : G.rw)); } return ok; }
  int cnt[3]; for (cnt[0] = len[0] ? 1 : 0; cnt[0] <= (e[0] ? ext : len[0] ? 1 : 0); cnt[0]++) for (cnt[1] = len[1] ? 1 : 0; cnt[1] <= (e[1] ? ext : len[1] ? 1 : 0); cnt[1]++) for (cnt[2] = len[2] ? 1 : 0; cnt[2] <= (e[2] ? ext : len[2] ? 1 : 0); cnt[2]++) {
    if (cnt[0] * len[0] + cnt[1] * len[1] + cnt[2] * len[2] != ext) continue;
    if (e[0] && e[2]) { int d = cnt[0] - cnt[2]; if (d > 1 || d < -1) continue; }
    int ok = 1, pos = 0;
    for (int i = 0; i < 3; i++) for (int c = 0; c < cnt[i]; c++) for (int u = 0; u < (horiz ? 1 : len[i]); u++) {
      if (horiz) { int hh = side == TOP ? G.th : G.bh; for (int l = 0; l < hh; l++) ok &= same_shape(&O[side == TOP ? l : no - G.bh + l], prefix + G.lw + pos, s[i], l); pos += len[i]; }
      else { ok &= same_shape(&O[G.th + pos], side == LEFT ? prefix : prefix + G.lw + iw, s[i], u); pos++; } }
    best |= ok; }
  return best; }
static void check29(void) {
  sym_assert(ih >= 1 && iw >= 1, "box has an inside"); if (ih < 1 || iw < 1) return; int ok = 1;
  if (G.have[TOP]) { sym_assert(side_ok(TOP, iw), "top side is composed of its shapes"); for (int l = 0; l < G.th; l++) { if (G.have[LEFT]) ok &= G.h[NW] ? same_shape(&O[l], prefix, NW, l) : blank_range(&O[l], prefix, prefix + G.lw); if (G.have[RIGHT]) ok &= G.h[NE] ? same_shape(&O[l], prefix + G.lw + iw, NE, l) : blank_range(&O[l], prefix + G.lw + iw, O[l].n); } }
  if (G.have[BOTTOM]) { sym_assert(side_ok(BOTTOM, iw), "bottom side is composed of its shapes"); for (int l = 0; l < G.bh; l++) { int j = no - G.bh + l; if (G.have[LEFT]) ok &= G.h[SW] ? same_shape(&O[j], prefix, SW, l) : blank_range(&O[j], prefix, prefix + G.lw); if (G.have[RIGHT]) ok &= G.h[SE] ? same_shape(&O[j], prefix + G.lw + iw, SE, l) : blank_range(&O[j], prefix + G.lw + iw, O[j].n); } }
  sym_assert(ok, "corners are verbatim");
  if (G.have[LEFT]) sym_assert(side_ok(LEFT, ih), "left side is composed of its shapes"); if (G.have[RIGHT]) sym_assert(side_ok(RIGHT, ih), "right side is composed of its shapes"); }
#endif
