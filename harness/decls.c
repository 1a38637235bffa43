/* Independent reading of a C header with libclang: one line per function declaration, in JSON.
 * usage: decls FILE [compiler options] */
#include <clang-c/Index.h>
#include <stdio.h>
#include <string.h>

static CXTranslationUnit tu;
static CXFile mainFile;

static void str(const char *s)
{
  putchar('"');
  for(; s && *s; s++)
  {
    if(*s == '"' || *s == '\\') printf("\\%c", *s);
    else if((unsigned char)*s < 32) printf(" ");
    else putchar(*s);
  }
  putchar('"');
}

static void cx(CXString s)
{
  str(clang_getCString(s));
  clang_disposeString(s);
}

static enum CXChildVisitResult visit(CXCursor c, CXCursor parent, CXClientData local)
{
  enum CXCursorKind k = clang_getCursorKind(c);
  if(k == CXCursor_LinkageSpec || k == CXCursor_Namespace || k == CXCursor_UnexposedDecl)
    clang_visitChildren(c, visit, local);
  if(k == CXCursor_CompoundStmt || k == CXCursor_DeclStmt)
    clang_visitChildren(c, visit, (CXClientData)1);
  if(k == CXCursor_FunctionDecl)
  {
    CXFile f;
    unsigned line;
    clang_getExpansionLocation(clang_getCursorLocation(c), &f, &line, NULL, NULL);
    CXType t = clang_getCursorType(c);
    printf("{\"name\": ");
    cx(clang_getCursorSpelling(c));
    printf(", \"sym\": ");
    cx(clang_Cursor_getMangling(c));
    printf(", \"file\": ");
    cx(clang_getFileName(f));
    printf(", \"main\": %d, \"line\": %u, \"storage\": %d, \"inline\": %u, \"body\": %u, \"local\": %d, \"variadic\": %u, \"proto\": %d", f && clang_File_isEqual(f, mainFile) != 0, line,
           clang_Cursor_getStorageClass(c), clang_Cursor_isFunctionInlined(c), clang_isCursorDefinition(c), local != NULL, clang_isFunctionTypeVariadic(t),
           clang_getNumArgTypes(t) >= 0 && t.kind == CXType_FunctionProto);
    CXString ts = clang_getTypeSpelling(t), pp = clang_getCursorPrettyPrinted(c, NULL);
    const char *a = clang_getCString(ts), *b = clang_getCString(pp);
    static const char nr[] = "__attribute__((noreturn))";
    size_t la = strlen(a);
    printf(", \"noreturn\": %d", (la >= sizeof nr && !strcmp(a + la - (sizeof nr - 1), nr)) || strstr(b, "_Noreturn") || strstr(b, "[[noreturn]]") ? 1 : 0);
    printf(", \"pretty\": ");
    char buf[4096];
    snprintf(buf, sizeof buf, "%s", b);
    char *brace = strchr(buf, '{');
    if(brace) *brace = 0;
    str(buf);
    clang_disposeString(ts);
    clang_disposeString(pp);
    printf(", \"ret\": ");
    cx(clang_getTypeSpelling(clang_getResultType(t)));
    printf(", \"cret\": ");
    cx(clang_getTypeSpelling(clang_getCanonicalType(clang_getResultType(t))));
    printf(", \"args\": [");
    for(int i = 0; i < clang_getNumArgTypes(t); i++)
    {
      CXType p = clang_getArgType(t, i), q = clang_getCanonicalType(p);
      printf("%s[", i ? ", " : "");
      cx(clang_getTypeSpelling(p));
      printf(", ");
      cx(clang_getTypeSpelling(q));
      /* what is pointed to in the end - p: writable, v: void, i: an incomplete type, f: function, c: const, ?: writable behind something const; s: no pointer */
      const char *cl = "s";
      int depth = 0, konst = 0, constInside = 0;
      CXType e = q;
      for(;;)
      {
        CXType n = clang_getPointeeType(e);
        if(e.kind != CXType_Pointer) n = depth == 0 && clang_getArrayElementType(e).kind != CXType_Invalid ? clang_getCanonicalType(clang_getArrayElementType(e)) : (CXType){CXType_Invalid};
        if(n.kind == CXType_Invalid) break;
        constInside |= konst;
        konst = clang_isConstQualifiedType(n) || (e.kind != CXType_Pointer && clang_isConstQualifiedType(e));
        e = n;
        depth++;
      }
      if(depth)
      {
        if(e.kind == CXType_FunctionProto || e.kind == CXType_FunctionNoProto) cl = "f";
        else if(konst) cl = "c";
        else if(constInside) cl = "?";
        else if(e.kind == CXType_Void) cl = "v";
        else cl = clang_Type_getSizeOf(e) == CXTypeLayoutError_Incomplete ? "i" : "p";
      }
      printf(", \"%s\", %d]", cl, depth);
    }
    printf("]}\n");
    clang_visitChildren(c, visit, local);
    return CXChildVisit_Continue;
  }
  return CXChildVisit_Continue;
}

int main(int argc, char **argv)
{
  CXIndex ix = clang_createIndex(0, 0);
  unsigned errors = 0;
  if(clang_parseTranslationUnit2(ix, argv[1], (const char *const *)argv + 2, argc - 2, NULL, 0, CXTranslationUnit_None, &tu) != CXError_Success)
  {
    fprintf(stderr, "cannot parse %s\n", argv[1]);
    return 2;
  }
  for(unsigned i = 0; i < clang_getNumDiagnostics(tu); i++)
  {
    CXDiagnostic d = clang_getDiagnostic(tu, i);
    if(clang_getDiagnosticSeverity(d) >= CXDiagnostic_Error)
    {
      CXString s = clang_formatDiagnostic(d, clang_defaultDiagnosticDisplayOptions());
      fprintf(stderr, "%s\n", clang_getCString(s));
      clang_disposeString(s);
      errors++;
    }
    clang_disposeDiagnostic(d);
  }
  mainFile = clang_getFile(tu, argv[1]);
  clang_visitChildren(clang_getTranslationUnitCursor(tu), visit, NULL);
  return errors ? 1 : 0;
}
