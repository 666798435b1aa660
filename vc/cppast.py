"""Extraction of the typed AST of the real sources with clang (every run, from the current tree)."""
import json
import os
import subprocess
import tempfile

CLANG = "/usr/bin/clang++-18"
REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "parse_stubs")


class ExtractError(Exception):
    pass


class Program:
    def __init__(self):
        self.decls = {}       # id -> node (functions, vars, records, fields)
        self.canon = {}       # id -> canonical id (previousDecl chain)
        self.defs = {}        # canonical id -> function node with a body
        self.records = {}     # qualified name -> record node (complete definition)
        self.rec_of_id = {}
        self.functions = {}   # qualified name -> list of function def nodes
        self.fields = {}      # record name -> [(name, type, init)]
        self.globals = {}     # id -> VarDecl
        self.parent = {}
        self.files = {}

    def definition(self, did):
        return self.defs.get(self.canon_id(did))

    def canon_id(self, did):
        seen = set()
        while did in self.canon and did not in seen:
            seen.add(did)
            did = self.canon[did]
        return did


def dump_ast(path, extra=()):
    cmd = [CLANG, "-std=c++20", "-I" + REPO + "/libsymmetrix/source", "-I/opt/vp/cmake/shim/source", "-I" + STUBS,
           "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", *extra, path]
    with tempfile.TemporaryFile() as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise ExtractError("clang failed on %s:\n%s" % (path, r.stderr.decode()[-2000:]))
        f.seek(0)
        import gc
        gc.disable()
        try:
            return json.load(f)
        finally:
            gc.enable()


FUNC_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


def load(paths, roots=None, extra=()):
    """load translation units into one Program; only declarations located under `roots` are kept"""
    prog = Program()
    roots = tuple(roots or (REPO + "/",))
    for n, p in enumerate(paths):
        tree = dump_ast(p, extra)
        _index(prog, tree, roots, "t%d:" % n)
    return prog


class _Loc:
    file = None


def _index(prog, tree, roots, pre):
    cur = _Loc()

    def upd(loc):
        if not loc:
            return
        for k in ("spellingLoc", "expansionLoc"):
            if k in loc:
                upd(loc[k])
        if "file" in loc:
            cur.file = loc["file"]

    def quick_scan(node):
        """track file changes through a subtree that is not kept"""
        stack = [node]
        while stack:
            x = stack.pop()
            l = x.get("loc")
            if l:
                upd(l)
            r = x.get("range")
            if r:
                upd(r.get("begin"))
                upd(r.get("end"))
            inn = x.get("inner")
            if inn:
                stack.extend(reversed(inn))

    def index_kept(node, qual, line):
        k = node.get("kind")
        if "id" in node:
            if k in FUNC_KINDS or k in ("VarDecl", "FieldDecl", "ParmVarDecl", "BindingDecl", "CXXRecordDecl",
                                        "DecompositionDecl", "EnumConstantDecl"):
                prog.decls[node["id"]] = node
        name = node.get("name")
        if k == "FunctionTemplateDecl":
            for c in node.get("inner", []):
                if c.get("kind") in FUNC_KINDS:
                    c["_pattern"] = True           # the uninstantiated template itself
                    break
        if node.get("previousDecl"):
            prog.canon[node["id"]] = node["previousDecl"]
        if k in FUNC_KINDS:
            q = qual
            pd = node.get("parentDeclContextId")
            if pd and pd in prog.rec_of_id:
                q = prog.rec_of_id[pd] + "::"
            body = [c for c in node.get("inner", []) if c.get("kind") == "CompoundStmt"]
            node["_qual"] = q + (name or "")
            if body and not node.get("isImplicit"):
                node["_body"] = body[0]
                cid = prog.canon_id(node["id"])
                prog.defs[cid] = node
                prog.functions.setdefault(node["_qual"], []).append(node)
            nq = node["_qual"] + "::"
        elif k == "CXXRecordDecl" and name:
            nq = qual + name + "::"
            prog.rec_of_id[node["id"]] = qual + name
            if node.get("completeDefinition"):
                prog.records[qual + name] = node
                fl = []
                for c in node.get("inner", []):
                    if c.get("kind") == "FieldDecl":
                        fl.append((c.get("name"), c["type"], [x for x in c.get("inner", []) if "kind" in x]))
                prog.fields[qual + name] = fl
        elif k == "NamespaceDecl":
            nq = qual + ((name + "::") if name else "")
        elif k == "VarDecl":
            prog.globals[node["id"]] = node
            nq = qual
        else:
            nq = qual
        for c in node.get("inner", []) or []:
            if isinstance(c, dict) and c.get("kind"):
                index_kept(c, nq, line)

    for d in tree.get("inner", []):
        f0 = cur.file
        upd(d.get("loc"))
        f = cur.file
        keep = f is not None and any(os.path.abspath(f).startswith(r) for r in roots)
        quick_scan(d)
        if keep:
            d["_file"] = f
            index_kept(d, "", 0)
    tree["inner"] = None
