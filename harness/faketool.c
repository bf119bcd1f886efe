/* A tool chain that records what it is asked and whose outputs tell what they were made of.
   Sources: "file ID:V", "inc PATH" (as #include "PATH"), "bad".  TOOLS names the directory of records. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <libgen.h>
static FILE *lg;
static char *inc[256]; static int ninc;
static char toks[65536]; static char deps[65536]; static int bad, missing, moc;
static void done(int rc) { if (lg) { fprintf(lg, "rc %d\n", rc); fclose(lg); } exit(rc); }
static FILE *look(const char *from, const char *what, char *full) {
  char tmp[4096]; FILE *f;
  strcpy(tmp, from);
  if (what[0] == '/') strcpy(full, what); else sprintf(full, "%s/%s", dirname(tmp), what);
  if ((f = fopen(full, "r"))) return f;
  for (int i = 0; i < ninc; i++) { sprintf(full, "%s/%s", inc[i], what); if ((f = fopen(full, "r"))) return f; }
  return 0;
}
static void scan(const char *path, FILE *f, int top) {
  char ln[4096], full[8192]; int any = 0;
  strcat(deps, " "); strcat(deps, path);
  while (fgets(ln, sizeof ln, f)) {
    ln[strcspn(ln, "\n")] = 0; any = 1;
    if (!strncmp(ln, "file ", 5)) { strcat(toks, " "); strcat(toks, ln + 5); }
    else if (!strcmp(ln, "bad")) bad |= 1;
    else if (!strcmp(ln, "moc") && top) moc = 1;
    else if (!strncmp(ln, "inc ", 4)) { FILE *g = look(path, ln + 4, full); if (!g) missing = 1; else scan(full, g, 0); }
  }
  if (!any) missing = 1;   /* an empty file is no header */
  fclose(f);
}
static void cat(const char *path, FILE *out, const char *pre) {
  char ln[70000]; FILE *f = fopen(path, "r");
  if (!f) done(1);
  while (fgets(ln, sizeof ln, f)) if (!strncmp(ln, "obj", 3)) fputs(ln, out);
  fclose(f);
}
int main(int n, char **v) {
  char me[256], p[4096], *dir = 0; char self[4096];
  strcpy(self, v[0]); strcpy(me, basename(self)); strcpy(self, v[0]); dir = dirname(self);
  sprintf(p, "%s/../calls/%d", dir, getpid()); lg = fopen(p, "w");
  if (!lg) return 9;
  fprintf(lg, "tool %s\n", me);
  for (int i = 1; i < n; i++) fprintf(lg, "arg %s\n", v[i]);
  sprintf(p, "%s/../broken/%s", dir, me);
  int broken = access(p, F_OK) == 0;
  sprintf(p, "%s/../broken/slow-%s", dir, me);
  if (!access(p, F_OK)) usleep(60000);
  for (int i = 1; i < n; i++) if (!strncmp(v[i], "-I", 2)) inc[ninc++] = v[i] + 2;
  if (!strcmp(me, "moc") || !strcmp(me, "uic")) {
    char *src = 0, *o = 0;
    for (int i = 1; i < n; i++) { if (!strcmp(v[i], "-o")) o = v[++i]; else if (v[i][0] != '-') src = v[i]; }
    FILE *f = src ? fopen(src, "r") : 0; char buf[65536]; size_t k;
    if (!f) done(1);
    scan(src, f, 0);
    fprintf(lg, "id%s\n", toks);
    if (broken) { if (!o) { printf("half"); fflush(stdout); } done(1); }
    if (bad) { if (!o) { printf("half"); fflush(stdout); } done(1); }
    FILE *out = o ? fopen(o, "w") : stdout;
    if (!out) done(1);
    fputs(!strcmp(me, "moc") ? "moc\n" : "uic\n", out);
    f = fopen(src, "r");
    while ((k = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, k, out);
    fclose(f); if (fclose(out)) done(1);
    done(0);
  }
  if (!strcmp(me, "gcc") || !strcmp(me, "g++")) {
    int scanning = 0; char *src = 0, *o = 0, *c = 0;
    for (int i = 1; i < n; i++) {
      if (!strcmp(v[i], "-MM")) scanning = 1, src = v[i + 1];
      else if (!strcmp(v[i], "-c")) c = v[i + 1];
      else if (!strcmp(v[i], "-o")) o = v[i + 1];
    }
    if (scanning || c) {
      if (!scanning) src = c;
      FILE *f = fopen(src, "r");
      if (!f) done(1);
      scan(src, f, 1);
      fprintf(lg, "id%s%s\n", moc ? " m" : "", toks);
      if (missing) done(1);
      if (scanning) { char b[4096]; strcpy(b, src); printf("%s.o:%s\n", basename(b), deps); fflush(stdout); done(0); }
      if (bad || (broken && c)) done(1);
      FILE *out = fopen(o, "w");
      if (!out) done(1);
      fprintf(out, "obj%s%s\n", moc ? " m" : "", toks); fclose(out);
      done(0);
    }
  }
  /* everything else gathers */
  char *outp = 0; FILE *out;
  if (!strcmp(me, "javac")) {
    int any = 0;
    for (int i = 1; i < n; i++) if (v[i][0] != '-') { FILE *f = fopen(v[i], "r"); if (!f) done(1); scan(v[i], f, 0); any = 1; }
    fprintf(lg, "id%s\n", toks);
    if (bad || broken || !any) done(1);
    for (int i = 1; i < n; i++) if (v[i][0] != '-') {
      strcpy(p, v[i]); char *d = strrchr(p, '.'); if (d) strcpy(d, ".class");
      if (!(out = fopen(p, "w"))) done(1);
      fprintf(out, "obj%s\n", toks); fclose(out);
    }
    done(0);
  }
  if (!strcmp(me, "gen")) {
    FILE *f = n == 3 ? fopen(v[1], "r") : 0;
    if (!f) done(1);
    scan(v[1], f, 0);
    fprintf(lg, "id%s\n", toks);
    if (bad || broken || !(out = fopen(v[2], "w"))) done(1);
    fprintf(out, "obj%s\n", toks); fclose(out);
    done(0);
  }
  char *ins[4096]; int ni = 0;
  if (!strcmp(me, "ar")) { outp = v[2]; for (int i = 3; i < n; i++) ins[ni++] = v[i]; }
  else if (!strcmp(me, "objcopy")) { outp = v[n - 1]; ins[ni++] = v[n - 2]; }
  else if (!strcmp(me, "dx")) { for (int i = 1; i < n; i++) if (!strcmp(v[i], "--output")) outp = v[++i]; else if (v[i][0] != '-') ins[ni++] = v[i]; }
  else for (int i = 1; i < n; i++) { if (!strcmp(v[i], "-o")) outp = v[++i]; else if (v[i][0] != '-') ins[ni++] = v[i]; }
  if (broken || !outp) done(1);
  sprintf(p, "%s.tmp%d", outp, getpid());
  if (!(out = fopen(p, "w"))) done(1);
  for (int i = 0; i < ni; i++) cat(ins[i], out, "");
  fclose(out);
  if (rename(p, outp)) done(1);
  done(0);
}
