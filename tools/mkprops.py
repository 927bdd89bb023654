#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, one entry per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=x, meaning=x) for x in state], observe_at=observe, hook_needed=hook)))

prop("C01", "Planned set is exactly the required dependency closure",
 "An installation covers exactly the requested packages (those listed in the configuration, plus the Depends/Imports/LinkingTo packages of configured tarballs and the dependencies of configured DESCRIPTION files) together with everything reachable from them through Depends, Imports and LinkingTo, and through Suggests for the packages whose suggested packages were asked for. Packages no configured repository offers are left out as dependencies, and so are base packages, ignored packages and, when recommended packages are turned off, recommended packages. A circular hard dependency, or a requested package that is unavailable or ignored, ends the run with an error and with the library untouched.",
 ["inputs", "configurations"], "every repository universe (dependency graph over all four dependency kinds) and every configuration of packages, ignore list, suggests and recommended switches, tarballs and DESCRIPTION files",
 "unit tests resolve one or two fixed graphs; the closure must be exact for every graph shape and switch combination",
 ["gpsr/solution.go", "gpsr/dependencies.go", "gpsr/install.go", "cmd/plan.go", "desc/structs.go"],
 [("graph construction", "gpsr/solution.go:appendToGraph"), ("layer resolution and cycle detection", "gpsr/dependencies.go:ResolveLayers"), ("requested set", "cmd/plan.go:planInstall")],
 ["requested packages", "dependency graph", "plan"], ["installed library and R invocations", "pkgr plan / inspect output"])

prop("C02", "Each package comes from the right repository in the right type",
 "A package without customization is taken from the first repository, in configuration order, that offers it in the package type applying to that repository (the repository's customized type, binary for a repository declared to hold Linux binaries, otherwise the platform default). A package customized to a repository is taken only from that repository, and a package customized to a type only in that type, each customization leaving the other choice as it would have been.",
 ["inputs", "configurations"], "every ordered list of repositories, every distribution of packages, versions and types over them, and every combination of repository and package customizations",
 "tests check one customization at a time against one or two live repositories",
 ["cran/pkg_nexus.go", "configlib/config.go", "cmd/plan.go", "cran/repodb.go"],
 [("lookup", "cran/pkg_nexus.go:GetPackage"), ("customizations", "configlib/config.go:SetPlanCustomizations"), ("repository configuration", "cmd/plan.go:planInstall")],
 ["repository order", "package and repository customizations"], ["origin of the installed content", "'package repository set' log entries"])

prop("C03", "R-version eligibility and version ordering are exact",
 "A repository record is usable exactly when the running R version satisfies its requirement on R, for every comparison operator (>=, >, ==, !=, <=, <), for requirements naming one to three version components, and when it names R without a version. Whether an installed package is older than the repository's version is decided by comparing versions component by component as numbers, with dots and dashes equivalent, up to five components, a missing component counting as zero.",
 ["inputs"], "every R requirement, R version, and pair of installed and offered versions of up to five components",
 "tests compare a handful of version pairs; ordering and boundary behaviour must hold for all of them",
 ["desc/version.go", "desc/desc.go", "cran/repodb.go", "pacman/utils.go"],
 [("version parsing and comparison", "desc/version.go:ParseVersion, CompareVersions"), ("R requirement", "cran/repodb.go:checkRVersionCompatibility"), ("outdated detection", "pacman/utils.go:GetOutdatedPackages")],
 ["package records", "installed versions"], ["which record is installed", "which packages are updated"])

prop("C04", "Preview commands and strict mode never change the library",
 "The plan and inspect commands, and loading packages, leave the package library, the configuration file and the repositories exactly as they found them, whatever the state of the library, and never start a package installation. An install in strict mode whose library does not exist stops with an error without creating it.",
 ["inputs", "configurations", "histories"], "every configuration, library state (missing, empty, outdated, with leftovers of a killed run) and preview command",
 "tests look at a single fixture's output, not at what the command left behind in every library state",
 ["cmd/plan.go", "cmd/inspect.go", "cmd/load.go", "cmd/install.go"],
 [("planning shared by all commands", "cmd/plan.go:planInstall"), ("strict mode", "cmd/install.go:rInstall")],
 ["library", "configuration file"], ["file-system snapshot before and after", "R invocations"])

prop("C05", "The plan that is reported is the plan that is carried out",
 "With unchanged inputs, the packages, repositories, versions and types that the plan command reports are the ones the following install uses, the number of packages it announces for installation is the number of packages the install installs (tarballs and updates included), the number announced for update is the number it updates, and every package reported as about to be updated is updated; a plan in which a tarball stands for a repository package too is exempt from the counts.",
 ["inputs", "configurations"], "every configuration, repository universe and prior library state, with unrelated and outdated packages present",
 "no test runs a plan and the install after it and compares them over arbitrary library states",
 ["cmd/plan.go", "gpsr/install.go", "cmd/install.go", "rollback/types.go"],
 [("report", "cmd/plan.go:planInstall"), ("count", "gpsr/dependencies.go:GetNumPackagesToInstall"), ("filter of staged updates", "rollback/types.go:PreparePackagesForUpdate")],
 ["plan", "library"], ["plan's JSON log", "library difference made by install"])

prop("C06", "No package is built before all its dependencies are in the library",
 "Whenever the build or installation of a package starts, every package of the plan that it needs, directly or indirectly, through Depends, Imports or LinkingTo is already completely installed in the target library in the version this run keeps or selected from the repositories. This holds for every number of workers and every order in which builds finish.",
 ["schedules", "inputs"], "every dependency graph, number of workers, completion order and starting library",
 "a test observes one schedule; the guarantee is about all interleavings of workers, update handler and requester",
 ["rcmd/install.go", "rcmd/worker.go", "gpsr/solution.go", "gpsr/dependencies.go"],
 [("readiness", "rcmd/install.go:InstallPackagePlan update handler"), ("dependency database", "gpsr/solution.go:ResolveInstallationReqs")],
 ["installed set", "work queue", "library"], ["start of every R CMD INSTALL and the library at that moment"])

prop("C07", "Every planned package is installed exactly once",
 "When no build fails, an install run starts each planned package that is not already present exactly once, starts nothing outside the plan, never reinstalls one that is present and up to date, and ends with every planned package in the library. When builds fail, still no package is started more than once.",
 ["schedules", "inputs", "fault_sequences"], "every plan, worker count, completion order and set of failing packages",
 "duplicated or lost requests appear only for particular graphs and completion orders",
 ["rcmd/install.go", "rcmd/worker.go"],
 [("requester", "rcmd/install.go:InstallPackagePlan"), ("queue", "rcmd/worker.go")],
 ["requested set", "work queue", "library"], ["R CMD INSTALL invocations", "final library"])

prop("C08", "A failed build stops everything that depends on it and all new work",
 "After a package fails, no package that needs it, directly or indirectly, is ever started in that run. Once the failure has been taken note of, no package that only became ready afterwards is started; only work already under way or already ready is finished.",
 ["schedules", "fault_sequences", "inputs"], "every graph, set of failing packages, failing phase, worker count and completion order",
 "the containment depends on the order in which results are handled relative to the failure",
 ["rcmd/install.go", "rcmd/worker.go"],
 [("failure flag", "rcmd/install.go:anyFailed"), ("requester", "rcmd/install.go:InstallPackagePlan")],
 ["failure flag", "ready packages"], ["R CMD INSTALL invocations"])

prop("C09", "An install run always comes to an end",
 "An install run terminates for every plan, including plans of thousands of packages and packages with thousands of dependents, for every number of workers, and for every combination of failing, vanishing or uncacheable builds.",
 ["schedules", "fault_sequences", "inputs"], "every plan size and fan-out, worker count, set of failing packages and completion order",
 "a lost completion signal or a full queue only shows under particular failure timing or plan sizes that no test reaches",
 ["rcmd/install.go", "rcmd/worker.go", "cmd/install.go"],
 [("wait group and channels", "rcmd/install.go:InstallPackagePlan"), ("queues", "rcmd/worker.go:NewInstallQueue")],
 ["wait group", "work queue", "update queue", "request channel"], ["process termination"])

prop("C10", "Never more concurrent builds than the thread limit",
 "The number of package builds running at the same time never exceeds the configured number of threads, or, when that is absent or not positive, the smaller of the available processors and eight; and package loading never runs more than twice that many sessions.",
 ["schedules", "configurations"], "every thread setting, from configuration or command line, and every plan",
 "tests check the worker-count arithmetic but not the number of processes actually alive",
 ["cmd/utils.go", "rcmd/worker.go", "cmd/install.go", "cmd/load.go"],
 [("worker count", "cmd/utils.go:getWorkerCount"), ("workers", "rcmd/worker.go:NewInstallQueue"), ("load semaphore", "cmd/load.go:load")],
 ["running builds"], ["start and end of every R process"])

prop("C11", "A failed install restores the library exactly",
 "If any package or tarball fails to install and rollback is enabled, the run leaves the library as it was before: packages that were updated or overwritten are back with their old content, packages that were newly installed are gone, and a library directory the run created is removed. With rollback disabled, the packages that did install stay.",
 ["fault_sequences", "schedules", "inputs"], "every set of failing packages and phases, mix of new, updated, overwritten and unrelated packages, and completion order",
 "tests cover two or three fixed combinations; restoration must be exact for every mix and every point of failure",
 ["rollback/operations.go", "rollback/types.go", "cmd/install.go"],
 [("staging", "rollback/operations.go:tagOldInstallation"), ("restoring", "rollback/operations.go:RollbackPackageEnvironment"), ("order of steps", "cmd/install.go:rInstall")],
 ["library", "backups"], ["file-system snapshot before and after"])

prop("C12", "Updates go forward only, and only where asked for",
 "A successful install replaces every planned package that is older than the repository's version by that version, leaves every planned package that is equal or newer as it is, and installs the missing ones; with updates disabled it changes no package that is present.",
 ["inputs", "configurations"], "every combination of installed, offered and missing versions, tarballs and update setting",
 "tests sample a few packages; the rule is about all combinations of versions and switches",
 ["rollback/types.go", "rollback/operations.go", "pacman/utils.go", "cmd/install.go", "rcmd/install.go"],
 [("outdated set", "pacman/utils.go:GetOutdatedPackages"), ("staging", "rollback/types.go:PreparePackagesForUpdate"), ("skip if present", "rcmd/install.go:InstallThroughBinary")],
 ["library", "outdated set"], ["library before and after"])

prop("C13", "Unrelated library content survives and no leftovers remain",
 "Whatever an install run does and however it ends short of being killed, library entries that are not part of the plan keep their content, and no backup or temporary directory is left in the library.",
 ["inputs", "fault_sequences", "histories"], "every library population (packages outside the plan, outdated ones included, plain directories) and every outcome",
 "the effect on bystanders is not asserted by the existing tests outside a few fixtures",
 ["rollback/types.go", "rollback/operations.go", "cmd/install.go"],
 [("filter", "rollback/types.go:PreparePackagesForUpdate, discernNewPackages"), ("cleanup", "rollback/operations.go:DeleteBackupPackageFolders")],
 ["library"], ["file-system snapshot before and after"])

prop("C14", "Rerunning after a crash converges, and a complete library is a fixed point",
 "If an install is killed at any moment, running the same install again (with the same options, repositories and R, and with every build succeeding) leaves the library with exactly the packages and versions an uninterrupted run would have produced and without anything the killed run left behind in it; packages that are not pkgr's to touch stay. Running it once more starts no build of a repository package (unless a tarball is installed under the name of one) and changes nothing. A further command that is killed in turn, or fails and undoes its work, starts from this same guarantee.",
 ["crash_points", "histories"], "every kill point of an install and every library state such a kill can leave, followed by reruns",
 "no test kills the program; the recovery path depends on where it died",
 ["rollback/operations.go", "pacman/utils.go", "cmd/install.go", "rcmd/install.go"],
 [("staging over an old backup", "rollback/operations.go:tagOldInstallation"), ("reading the library", "pacman/utils.go:GetPriorInstalledPackages")],
 ["library", "backups", "cache"], ["library after reruns"])

prop("C16", "Installed content always comes from the selected origin",
 "Whatever earlier runs left in the package cache, with other repositories, addresses, versions or R versions, the content installed for a package is that of the version, repository and type selected for this run, and a cached build is reused only for the same repository address, package version and R minor version, so what is installed was built by the R minor version in use.",
 ["histories", "configurations"], "every history of installs sharing one cache while repositories, their addresses, offered versions and the R version change",
 "cache confusion needs a particular history of earlier runs",
 ["cran/utils.go", "cran/download-package.go", "rcmd/install.go", "rcmd/cache.go"],
 [("cache key", "cran/utils.go:RepoURLHash"), ("cached build", "rcmd/install.go:isInCache"), ("cached download", "cran/download-package.go:DownloadPackage")],
 ["package cache"], ["content of the installed packages", "reuse of builds"])

prop("C17", "A failed or interrupted transfer or build never poisons the cache",
 "After a download that failed, was cut short or was answered with an error, after a failed build, or after the program was killed at any moment, the next install with a healthy repository succeeds with the genuine content of every package. A package whose download failed is never installed from anything else.",
 ["fault_sequences", "crash_points", "histories"], "every download or build fault and kill point, followed by reruns over the same cache",
 "tests only download from healthy servers",
 ["cran/download-package.go", "cran/repodb.go", "rcmd/install.go", "cmd/tarballOps.go", "internal/archive/extract.go"],
 [("download", "cran/download-package.go:DownloadPackage"), ("build cache", "rcmd/install.go:InstallPackagePlan"), ("database cache", "cran/repodb.go:Encode"), ("tarball cache", "cmd/tarballOps.go:untar")],
 ["package cache", "database cache", "unpacked tarballs"], ["outcome and library of the following run"])

prop("C18", "Cleaning removes exactly what was asked for",
 "Cleaning the cache removes the source and/or built packages of the selected repositories (all of them by default) and the unpacked copies of the configured tarballs, and nothing else in the cache, the library or the configuration; cleaning package databases removes those of the selected repositories only. Cleaning something absent is harmless, and an install afterwards behaves as with a fresh cache.",
 ["histories", "configurations"], "every cache content, selection of repositories and flag combination, in any order with installs",
 "tests clean one prepared cache layout",
 ["cmd/cleanCache.go", "cmd/cleanPkgdb.go", "cmd/clean.go"],
 [("package cache", "cmd/cleanCache.go:cleanCacheFolders, deleteCacheSubfolders"), ("database cache", "cmd/cleanPkgdb.go:removePackageDatabases")],
 ["package cache", "database cache"], ["cache listing before and after"])

prop("C19", "Cached package databases are fresh, separate and trustworthy",
 "Within its lifetime a cached package database gives the same answer as the repository gave when it was fetched; once expired, the repository's current answer is used. Databases of different repository names, addresses, package types or R versions are never mixed up, and a repository that could not be read is reported as an error and never remembered as empty.",
 ["histories", "fault_sequences", "configurations"], "every history of runs over repositories that change, become unreachable and recover, with any cache lifetime and R version",
 "tests start from an empty cache and a healthy repository",
 ["cran/repodb.go", "cran/pkg_nexus.go"],
 [("cache file and age", "cran/repodb.go:FetchPackages"), ("cache key", "cran/repodb.go:Hash"), ("storage", "cran/repodb.go:Encode, Decode")],
 ["database cache"], ["version selected by the next run", "exit status"])

prop("C20", "Adding and removing packages edits the configuration exactly",
 "Adding packages makes exactly the named packages, each once, additional members of the configuration's package list; removing takes exactly the named packages out of that list. Every other setting and list entry, in any section, and every comment on another line stays as it was, and the file remains a valid configuration. If the command is killed, or a change to the file system fails, the file is as it was or edited for the first of the names, never cut off or empty.",
 ["inputs", "histories", "crash_points", "fault_sequences"], "every configuration file layout (indentation, comments, missing or empty package list, similar names, other sections) and every sequence of add and remove",
 "tests edit one sample file",
 ["configlib/add_package.go", "configlib/config.go", "cmd/add.go", "cmd/remove.go"],
 [("insert", "configlib/add_package.go:insertPackages"), ("remove", "configlib/config.go:remove")],
 ["configuration file"], ["configuration file before and after"])

prop("C21", "Builds see exactly the intended library paths and environment",
 "Every build started by an install has a package search path consisting of the target library only (with a private empty user library and no inherited site or user library), keeps the rest of the caller's non-empty environment variables (the values of access-token variables excepted), and receives the environment variables customized for that package, which win over inherited ones and are seen by no other package's build; the directory of a configured R leads the search path for programs.",
 ["configurations", "inputs"], "every inherited environment, per-package customization and library path",
 "tests check the assembled list for a few variables, not what each of many builds receives",
 ["rcmd/configure.go", "rcmd/nvp.go", "rcmd/install.go", "rcmd/Rsettings.go", "configlib/config.go"],
 [("environment", "rcmd/configure.go:configureEnv"), ("library path", "rcmd/Rsettings.go:LibPathsEnv"), ("customizations", "configlib/config.go:SetCustomizations")],
 ["process environment"], ["environment of every R process"])

prop("C22", "Secrets in the environment never reach logs",
 "The values inherited for the access-token and credential variables GITHUB_TOKEN, GITHUB_PAT, GHE_TOKEN, GHE_PAT, AWS_ACCESS_KEY_ID and AWS_SECRET_KEY, in any letter case, never appear in console output or log files of any command at any log level, even if a build prints its environment.",
 ["inputs", "configurations"], "every command, log level and format, log file setting, variable spelling and build outcome",
 "tests check the list builder, not every place a value can be printed from",
 ["rcmd/configure.go", "rcmd/install.go", "rcmd/RunR.go", "cmd/root.go"],
 [("censoring", "rcmd/configure.go:censoredEnvVars"), ("logging of commands", "rcmd/install.go:Install, rcmd/RunR.go")],
 ["logs"], ["console output and log files"])

prop("C23", "Configured tarballs are always what ends up installed",
 "A successful install leaves every package given as a tarball in the library with that tarball's current content, even if another version was installed before, is offered by a repository or was unpacked earlier; its dependencies are in the library before it is installed. A tarball that cannot be read, cannot be unpacked completely or reaches outside its own directory stops the run with the library untouched and nothing written elsewhere.",
 ["inputs", "histories", "fault_sequences"], "every set of tarballs (changed between runs, overlapping repository packages, damaged, hostile entry names) and library state",
 "tests install one well-formed tarball",
 ["cmd/tarballOps.go", "internal/archive/extract.go", "cmd/install.go", "rollback/types.go"],
 [("unpacking", "cmd/tarballOps.go:untar"), ("extraction", "internal/archive/extract.go:Extract"), ("installation", "cmd/install.go:installAdditionalPackages")],
 ["unpacked tarballs", "library"], ["library", "file system outside the cache"])

prop("C24", "The load report is exact",
 "Loading reports, for each requested package (or each package of the plan when all are asked for) exactly one result, successful exactly when loading it in R succeeded, with that package's own version, path and messages, and a failure count equal to the number of unsuccessful results, for any number of threads and any completion order.",
 ["schedules", "fault_sequences", "inputs"], "every set of packages, failing subset, thread count and completion order",
 "tests check the aggregation of two prepared results, not concurrent sessions",
 ["cmd/load.go", "cmd/structs.go"],
 [("sessions", "cmd/load.go:load, attemptLoadConcurrent"), ("report", "cmd/structs.go:AddResult")],
 ["report"], ["JSON report"])

prop("C25", "Installed packages record where they came from",
 "Each package a run installs carries in its DESCRIPTION exactly one entry each for the pkgr version, the installation type and the repository address, matching how this run obtained it, and, where it has a Repository field, names this run's repository there while a different original one is kept; all other fields are unchanged. Packages the run did not install keep their DESCRIPTION.",
 ["inputs", "histories"], "every DESCRIPTION content, package type, repository and sequence of cached reinstalls",
 "tests rewrite one sample file",
 ["rcmd/install.go"],
 [("metadata", "rcmd/install.go:updateDescriptionInfoByLines, writeDescriptionInfo")],
 ["DESCRIPTION files"], ["DESCRIPTION files of the library"])

prop("C26", "Inspected dependencies are complete and mutually inverse",
 "The dependency listing maps each planned package with dependencies to exactly its direct and indirect hard dependencies within the plan, the reverse listing is exactly its inverse, naming packages restricts the listing to those without changing their entries, and the tree shows the same relation.",
 ["inputs"], "every dependency graph, configuration and selection of packages",
 "tests print one fixture's listing",
 ["cmd/inspect.go", "gpsr/solution.go", "gpsr/dependencies.go"],
 [("closure", "gpsr/solution.go:ResolveInstallationReqs"), ("inversion", "gpsr/dependencies.go:InvertDependencies"), ("output", "cmd/inspect.go:printDeps")],
 ["plan"], ["pkgr inspect output"])

prop("C27", "Configured places and switches mean the same wherever pkgr is called from",
 "A place given by flag, by PKGR_ environment variable or in the configuration file is honoured in that order of precedence (and Library before Lockfile); ~ and, in the file, $VARIABLES are expanded; what is relative is relative to the configuration file's directory whatever the caller's directory; the R so named is the only R run, packages land only in the library so named, the log goes to the log file so named, appended to unless Overwrite is asked for, and the cache, tarballs, descriptions and local repositories are those named. Without any library, or when the configuration, the R or a configured file that the command needs is not there or is unreadable, the command fails and no library is touched.",
 ["inputs"], "every combination of sources, forms of path, variables and calling directories",
 "tests load a few fixture configurations from one directory and compare fields, never what a command then does",
 ["configlib/config.go", "cmd/root.go", "logger/logger.go"],
 [("precedence", "configlib/config.go:NewConfig"), ("expansion", "configlib/config.go:expandTilde"), ("directory", "configlib/config.go:loadConfigFromPath, resolveRPath"), ("logs", "logger/logger.go:AddLogFile")],
 ["settings", "inputs"], ["directory trees before and after, log files, fake R's call log"])

prop("C28", "Servers are authenticated unless certificate checks are switched off",
 "Unless NoSecure is set (in the configuration, or by --no-secure, which goes before it), pkgr sends no request to an https server, and keeps or installs nothing from one, whose certificate is not valid at present, for the server's name, and signed by a trusted authority: neither for package databases nor for packages, neither at first nor behind a redirection, neither in this run nor because of an earlier one; a run that needs such a server fails and leaves the library as it was. Servers with valid certificates, and all servers with NoSecure, are used.",
 ["inputs", "histories", "fault_sequences"], "every sequence of runs, repository chain and certificate state",
 "tests use one real server and never an invalid certificate",
 ["cran/repodb.go", "cran/download-package.go", "cmd/root.go"],
 [("databases", "cran/repodb.go:FetchPackages"), ("packages", "cran/download-package.go:DownloadPackage"), ("switch", "cmd/root.go:rootInit")],
 ["settings", "certificates"], ["requests that reach each server, exit status, cache and library"])

prop("C29", "A failing disk costs at most that run",
 "If a change that pkgr makes to the file system during an install fails (creating, writing, renaming or removing a file or directory: once, or whatever creates or writes from some moment on because the disk is full), the run still comes to an end, nothing but complete and genuine content is handed to R or left in the library, library entries that are not part of the plan keep their content, and, with rollback enabled, no package is lost: each that was there is there with its old or its new content, or put aside in the library for the next run to put back. The same install with a working disk then leaves exactly the packages and versions that an undisturbed run would have produced, and one more changes nothing.",
 ["inputs", "fault_sequences", "histories"], "every scenario and every change of the file system that can fail",
 "tests run on a disk that works, or in memory",
 ["cmd/install.go", "rollback/operations.go", "rollback/types.go", "rcmd/install.go", "cran/download-package.go", "cran/repodb.go", "cmd/tarballOps.go"],
 [("staging", "rollback/types.go:PreparePackagesForUpdate"), ("undoing", "rollback/operations.go:RollbackPackageEnvironment"), ("transfers", "cran/download-package.go:DownloadPackage"), ("builds", "rcmd/install.go:InstallThroughBinary")],
 ["library", "package cache", "database cache", "temporary files"], ["fake R's calls and what it is handed", "library after every run", "exit status"])

prop("C30", "What was fetched and built once is used again",
 "Every package file that an install fetches, and every package that it builds and installs, is in the cache afterwards, even when another package of the run fails. As long as it is there, no run with that cache, of whatever project, fetches a package from a repository of the same name, address and suffix again, in the same version and type (and, for binary packages, for the same minor version of R), nor builds one again that was built from such a package by the same minor version of R: it is installed from the cache. Within one run no package is fetched twice.",
 ["inputs", "histories"], "every sequence of runs, cleanings and failures over one cache",
 "tests run one install over an empty or prepared cache and never look at what is transferred or built",
 ["rcmd/install.go", "cran/download-package.go", "cran/utils.go"],
 [("lookup", "rcmd/install.go:isInCache"), ("keeping", "rcmd/install.go:InstallPackagePlan"), ("transfers", "cran/download-package.go:DownloadPackage"), ("places", "cran/utils.go:RepoURLHash")],
 ["package cache"], ["requests for package files", "fake R's calls", "cache listing after every run"])

prop("C31", "A run writes nowhere but in the places it is given",
 "Whatever the command and however it ends, pkgr changes, adds and removes nothing outside the library, the package cache, the database cache, the configured log files, the temporary directory and, for add and remove, the configuration file: the project's directory, tarballs, descriptions, local repositories, the home directory and what lies beside the library and the cache are afterwards as before. Commands that install nothing change nothing in the library either.",
 ["inputs", "histories", "fault_sequences"], "every command, history and failure",
 "tests look at the library only",
 ["cmd/install.go", "rcmd/install.go", "cmd/tarballOps.go", "cran/download-package.go", "cmd/load.go", "cmd/plan.go", "cmd/cleanCache.go"],
 [("builds", "rcmd/install.go:InstallThroughBinary"), ("R calls", "rcmd/install.go:Install"), ("archives", "cmd/tarballOps.go:unpackTarballs")],
 ["file system"], ["digests of everything in the scratch world before and after every run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
