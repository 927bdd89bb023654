PROP = "C31"
NEEDS = "a package whose installation fails"
BREAKS = "what R said about a failed package is written to a file in the directory pkgr was called from"
EDITS = [("rcmd/install.go", """				"output": output,
				"exit_code": exitCode,
""", """				"output": keepOutput(fs, pkg, output),
				"exit_code": exitCode,
"""), ("rcmd/install.go", """func isInCache(""", """// keepOutput keeps what R said about a failed package
func keepOutput(fs afero.Fs, pkg string, output string) string {
	_ = afero.WriteFile(fs, pkg+".out", []byte(output), 0666)
	return output
}

func isInCache(""")]
# --- demo ---
w = World()
w.policy({"b": {"if": 1}})
r = w.repo("R1", [("a", "1.0", {}), ("b", "1.0", {"Imports": "a"})])
w.config(f"Threads: 1\nPackages:\n  - b\nRepos:\n  - R1: {r}\n")
w.run("install")
expect(set(os.listdir(w.proj)) <= {"lib", "pkgr.yml"}, f"left behind: {sorted(os.listdir(w.proj))}")
