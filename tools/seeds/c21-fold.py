PROP = "C21"
NEEDS = "a variable set for a package and another one in the environment whose names differ in case only (http_proxy, HTTP_PROXY)"
BREAKS = "the variable of the environment is not passed to the builds of that package"
EDITS = [("rcmd/nvp.go", """func (list *NvpList) Get(name string) (value string, exists bool) {
	for _, pair := range list.Pairs {
		if name == pair.Name {
""", """func (list *NvpList) Get(name string) (value string, exists bool) {
	for _, pair := range list.Pairs {
		if strings.EqualFold(name, pair.Name) {
""")]
# --- demo ---
w = World()
r = w.repo("R1", [("a", "1.0", {})])
w.config(f"Threads: 1\nPackages:\n  - a\nRepos:\n  - R1: {r}\nCustomizations:\n  Packages:\n    - a:\n        Env:\n          MY_OPT: custom\n")
w.run("install", env=dict(my_opt="lower"))
seen = {(e["env"].get("MY_OPT"), e["env"].get("my_opt")) for e in w.events if "env" in e}
expect(seen == {("custom", "lower")}, "builds saw: %s" % seen)
