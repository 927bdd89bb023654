PROP = "C14"
NEEDS = "a run that is killed while it removes a package it has copied to the backup directory"
BREAKS = "what is left of the package is taken for the package when the next run begins, the backup is deleted, and no later run installs the package again"
EDITS = [("rollback/operations.go", """	err := fileSystem.Rename(packageDir, taggedPackageDir)
	//err := RenameDirRecursive(fileSystem, packageDir, taggedPackageDir)
""", """	// a copy, so that the package is in its place until the backup is complete
	err := copyDir(fileSystem, packageDir, taggedPackageDir)
	if err == nil {
		err = fileSystem.RemoveAll(packageDir)
	}
"""), ("rollback/operations.go", """func tagOldInstallation(""", """func copyDir(fileSystem afero.Fs, from, to string) error {
	return afero.Walk(fileSystem, from, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		target := filepath.Join(to, strings.TrimPrefix(path, from))
		if info.IsDir() {
			return fileSystem.MkdirAll(target, info.Mode())
		}
		content, err := afero.ReadFile(fileSystem, path)
		if err != nil {
			return err
		}
		return afero.WriteFile(fileSystem, target, content, info.Mode())
	})
}

func tagOldInstallation(""")]
# --- demo ---
import signal
N, FILES = 8, 2500


def world():
    w = World()
    names = ["p%d" % i for i in range(N)]
    r = w.repo("R1", [(x, "2.0", {}) for x in names])
    for x in names:
        w.put(x, "1.0")
        for i in range(FILES):
            (w.lib / x / ("f%d" % i)).write_text("x")
    w.config("Threads: 1\nPackages:\n" + "".join(f"  - {x}\n" for x in names) + f"Repos:\n  - R1: {r}\n")
    return w, names


def husk(w, names):
    return [x for x in names if (w.lib / x).is_dir() and not (w.lib / x / "DESCRIPTION").exists()]


def attempt():
    w, names = world()
    e = dict(HOME=str(w.root / "home"), XDG_CACHE_HOME=str(w.root / "xdg"), TMPDIR=str(w.root / "tmp"), PATH="/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8")
    p = subprocess.Popen([str(TOP / "pkgr"), "--config", str(w.proj / "pkgr.yml"), "install"], cwd=w.proj, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    hit = False
    while p.poll() is None and not (w.root / "rbin/events").exists():
        if husk(w, names):
            p.send_signal(signal.SIGSTOP)
            time.sleep(0.05)
            hit = bool(husk(w, names))
            if hit:
                break
            p.send_signal(signal.SIGCONT)
    p.kill()
    p.wait()
    w.run("install")
    w.run("install")
    expect(w.versions() == {x: "2.0" for x in names}, "after a killed run and two more: %s" % w.versions())
    return hit


for _ in range(6):
    if attempt():
        break
