#include "common.h"
#include "designs.h"
static struct buf cfg, txt;
void harness_main(void) {
  world_reset();
  int d = sym_choice("design", NDESIGNS); cfg_one(&cfg, d); world_file("/c", cfg.b, cfg.n, W_FILE);
  args0(); arg("-f"); arg("/c");
  switch (TIER ? sym_choice("opt", 7) : (sym_choice("opt", 2) * 3 + d) % 7) {
    case 0: break;
    case 1: arg("-a"); arg("hcvc"); arg("-s"); arg("20x9"); break;
    case 2: arg("-p"); arg("a2"); arg("-i"); arg("text"); break;
    case 3: arg("-a"); arg("hrvbjr"); arg("-s"); arg("7x4"); arg("-i"); arg("none"); break;
    case 4: arg("--no-color"); arg("-t"); arg("4u"); break;
    case 5: arg("-t"); arg("3k"); arg("-p"); arg("h1v0"); arg("-e"); arg("CRLF"); break;
    case 6: arg("--color"); arg("-s"); arg("12"); break;
  }
  switch (sym_choice("mode", 3)) { case 0: break; case 1: arg("-r"); break; case 2: arg("-m"); break; }
  switch (sym_choice("alpha", 3)) {
    case 0: SYM(&txt, "t", "ab \n\t\r|-", 4); break;
    case 1: bstr(&txt, "q"); SYM(&txt, "t", "\x1b[m0a7 (\n", 4); break;
    case 2: SYM(&txt, "t", "a \n\xe3\x80\xcc\x81\xc2\x01\x7f", 4); break;
  }
  stdin_buf(&txt);
  int rc = run();
  sym_assert((rc == 0) | (rc == 1), "exit status is 0 or 1");
  sym_cover("end");
}
