"""Classification of effects (file-system mutation, process execution, process exit) by callee."""
import re
from .absint import S, unk, ok, err, E1, RES, OPT, UNIT, TRUE, FALSE
from .models import both, cmd_of, cstr

FS_MUT = re.compile(
    r"^(std|tokio)::fs::((write|remove_file|remove_dir_all|remove_dir|rename|copy|create_dir_all|create_dir|hard_link|soft_link|"
    r"symlink|set_permissions)(::\w+)?$|(file::)?File::(create|create_new|set_len)$|OpenOptions::open$|open_options::OpenOptions::open$)"
    r"|^std::os::(unix|windows)::fs::symlink|^tar::.*::(unpack|unpack_in)$|^zip::.*::(extract|extract_unwrapped_root_dir)$"
    r"|^fs_extra::|^std::fs::DirBuilder::create$|^std::os::unix::fs::(chown|symlink)")
FS_DESTROY = re.compile(r"^(std|tokio)::fs::(remove_file|remove_dir_all|remove_dir|rename)(::\w+)?$")
FS_RMTREE = re.compile(r"^(std|tokio)::fs::remove_dir_all(::\w+)?$")
PROC_RUN = re.compile(r"^(std|tokio)::process::Command::(output|status|spawn|exec)$|CommandExt>?::exec$")
FS_ASYNC = re.compile(r"^tokio::")

READONLY_VCS = {"status", "rev-parse", "log", "branch", "describe", "show", "diff", "ls-files", "ls-remote", "remote",
                "config", "symbolic-ref", "rev-list", "merge-base", "tag", "id", "identify", "root", "info", "parents", "paths",
                "show-ref", "cat-file", "for-each-ref", "list", "tags", "proplist", "summary", "qseries"}


def is_mut(name):
    return bool(FS_MUT.search(name))


def is_run(name):
    return bool(PROC_RUN.search(name))


def short(name):
    p = name.split("::")
    return p[-1] if p[-1] != p[-2] else p[-1]


def readonly_command(E, st, c):
    """is the command being run one that only reads (version probes, VCS queries)?"""
    prog, args, _ = cmd_of(E, st, c)
    consts = [cstr(a) for a in args]
    if consts and consts[-1] in ("--version", "-V", "-version") and len(args) == 1:
        return True
    p = cstr(prog) if prog is not None else None
    if p in ("which", "where", "whoami", "hostname", "uname"):
        return True
    if p in ("git", "hg", "svn", "cvs"):
        sub = None
        i = 0
        while i < len(consts):
            if consts[i] in ("-C", "--cwd", "-R"):
                i += 2
                continue
            sub = consts[i]
            break
        if sub in READONLY_VCS:
            if sub == "tag":
                return any(x in ("-l", "--list", "--points-at", "--contains") for x in consts)
            if sub in ("branch", "remote", "config"):
                return not any(x in ("-d", "-D", "-m", "-M", "add", "rm", "remove", "set-url", "--unset", "--add") for x in consts)
            return True
    return False


def io_result(c, okv=None):
    """both outcomes of a fallible call"""
    return both(RES, "Ok", (("0", okv if okv is not None else c.fresh("ok")),), "Err", (("0", c.fresh("err")),))


def wrap_async(c, v):
    """tokio functions return a future"""
    if FS_ASYNC.search(c.name):
        return ("A", "ready", (("0", v),))
    return v
