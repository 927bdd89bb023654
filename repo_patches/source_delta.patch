From db9812a7504974862134b7cd46a715624f9ce16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 01/46] fix: settle the install wait group on every path

A package requested twice, a request dropped after a failure and a binary
that could not be copied to the cache all left the wait group unsettled,
so 'pkgr install' waited forever.
---
 rcmd/install.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 28a40b3..510d743 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -425,6 +425,7 @@ func InstallPackagePlan(
 		ncpu,
 		InstallThroughBinary,
 		func(iu InstallUpdate) {
+			defer wg.Done()
 			if iu.Err != nil {
 				log.WithField("err", iu.Err).Warn("error installing")
 				anyFailed = true
@@ -494,7 +495,6 @@ func InstallPackagePlan(
 
 				}
 			}
-			wg.Done()
 		}, // End anonymous function
 	) // End NewInstallQueue
 	go func(c chan string) {
@@ -502,6 +502,7 @@ func InstallPackagePlan(
 		for p := range c {
 			if anyFailed {
 				// stop trying to install any more
+				wg.Done()
 				continue
 			}
 
@@ -510,6 +511,7 @@ func InstallPackagePlan(
 			_, seen := requestedPkgs[p]
 			if seen {
 				// should only need to request a package once to install
+				wg.Done()
 				continue
 			} else {
 				requestedPkgs[p] = true
-- 
2.43.0


From 88adaf756733d3dfd4f3202e54461e697331786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 02/46] fix: never block the install update handler on new
 requests

With more ready packages than the work and update queues hold, the
handler waited for the requester, the requester for a worker and the
workers for the handler: the install hung.
---
 rcmd/install.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 510d743..2c6969f 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -411,8 +411,11 @@ func InstallPackagePlan(
 	// for now this will only be updated in the Update function
 	// however if it may be concurrently accessed should consider a syncmap implementation
 	installedPkgs := make(map[string]bool)
-	// if packages ID'd as ready to install signal so can push them only the queue
-	shouldInstall := make(chan string)
+	// if packages ID'd as ready to install signal so can push them only the queue.
+	// Each package is signalled once. There is room for all of them, as the update
+	// handler must never block here: it drains the update queue, which the workers
+	// (and through the full work queue the receiver of this channel) wait for.
+	shouldInstall := make(chan string, len(plan.StartingPackages)+len(plan.DepDb))
 	anyFailed := false
 
 	packagesNeeded := plan.GetNumPackagesToInstall()
-- 
2.43.0


From 42ba8d6048bdc61e9b56003b988a181e275203db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 03/46] fix: a package file that does not exist is an install
 failure

Install returned exit code 1 with a nil error, so the package was
reported and treated as installed.
---
 rcmd/install.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 2c6969f..444a7fe 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -84,6 +84,9 @@ func Install(
 	} else {
 		ok, err := afero.DirExists(fs, rdir)
 		if !ok || err != nil {
+			if err == nil {
+				err = fmt.Errorf("%s does not exist", rdir)
+			}
 			// TODO replace with better error
 			return CmdResult{
 				Stderr:   err.Error(),
@@ -106,15 +109,12 @@ func Install(
 			"ok":   ok,
 			"err":  err,
 		}).Error("package tarball not found")
-		var errs string
-		if err != nil {
-			errs = err.Error()
-		} else {
+		if err == nil {
 			// nil error not ok
-			errs = fmt.Sprintf("%s does not exist", pkgPath)
+			err = fmt.Errorf("%s does not exist", pkgPath)
 		}
 		return CmdResult{
-			Stderr:   fmt.Sprintf("err: %s, ok: %v", errs, ok),
+			Stderr:   fmt.Sprintf("err: %s, ok: %v", err, ok),
 			ExitCode: 1,
 		}, err
 	}
-- 
2.43.0


From c4ad9bd415e791bd4c4ae6434aedd558c5b72a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 04/46] fix: back up a package only once before overwriting it

A tarball package that was also staged for update was backed up twice;
the second attempt failed and the rollback then failed half way.
---
 rollback/types.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rollback/types.go b/rollback/types.go
index 9b827f8..b2af2a7 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -55,9 +55,14 @@ func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) {
 
 func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) {
 	var overwriteAttempts []UpdateAttempt
+	alreadyStaged := make(map[string]bool)
+	for _, update := range rp.UpdateRollbacks {
+		alreadyStaged[update.Package] = true
+	}
 	for pkg := range rp.InstallPlan.AdditionalPackageSources {
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
-		if isPreinstalled {
+		// a package staged for update has been backed up already
+		if isPreinstalled && !alreadyStaged[pkg] {
 			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
 				Package:    pkg,
 				OldVersion: preinstPkg.Version,
-- 
2.43.0


From 41798a6b6653842d938a351a716b2c498aa9720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 05/46] fix: download before creating the library and staging
 updates

A failed download ended the run with installed packages moved to their
backup folders (or an empty library created) and nothing restoring them.
---
 cmd/install.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index b8ad05a..49dbc1d 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -73,7 +73,23 @@ func rInstall(cmd *cobra.Command, args []string) error {
 				"library": cfg.Library,
 			}).Fatal("library directory must exist before running pkgr in strict mode -- halting execution")
 		}
+	}
+
+	// Create a list of package download objects using our install plan and our "nexus" object.
+	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
+
+	// Retrieve a cache to store any packages we need to download for the install.
+	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
+
+	// Nothing in the library is touched before everything has been downloaded, as a
+	// failed download ends the run.
+	// Create a pkgMap object, which helps us with parallel downloads (?)
+	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
+	if err != nil {
+		log.Fatalf("error downloading packages: %s", err)
+	}
 
+	if installPlan.CreateLibrary {
 		err := fs.MkdirAll(cfg.Library, 0755)
 		if err != nil {
 			log.WithFields(log.Fields{
@@ -89,18 +105,6 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	}
 	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
-	// Create a list of package download objects using our install plan and our "nexus" object.
-	// pkgsToDownload := getPackagesToDownload(installPlan, pkgNexus)
-
-	// Retrieve a cache to store any packages we need to download for the install.
-	packageCache := rcmd.NewPackageCache(userCache(cfg.Cache), false)
-
-	// Create a pkgMap object, which helps us with parallel downloads (?)
-	pkgMap, err := cran.DownloadPackages(fs, installPlan.PackageDownloads, packageCache.BaseDir, rVersion, cfg.NoSecure)
-	if err != nil {
-		log.Fatalf("error downloading packages: %s", err)
-	}
-
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
 	pkgInstallArgs.Library, _ = filepath.Abs(cfg.Library)
-- 
2.43.0


From f718557d96ec88c6de9d442530af31875e5c3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 06/46] fix: recover the backups an interrupted run left in the
 library

A stale backup folder was read as the installed package even beside a
newer installed one, kept later updates from being staged, and was
restored by a later rollback.
---
 cmd/install.go         |  8 ++++++++
 pacman/utils.go        | 11 +++++++++++
 rollback/operations.go | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+)

diff --git a/cmd/install.go b/cmd/install.go
index 49dbc1d..dd32827 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -63,6 +63,14 @@ func rInstall(cmd *cobra.Command, args []string) error {
 	// most people should know what platform they are on
 	log.Debugln("OS Platform " + rSettings.Platform)
 
+	// An interrupted run may have left packages moved to their backup folders.
+	if err := rollback.RecoverBackups(fs, cfg.Library); err != nil {
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+			"error":   err,
+		}).Fatal("could not recover the backups left by an interrupted run")
+	}
+
 	// Get master object containing the packages available in each repository (pkgNexus),
 	//  as well as a master install plan to guide our process.
 	_, installPlan, rollbackPlan := planInstall(rVersion, true)
diff --git a/pacman/utils.go b/pacman/utils.go
index d6db434..eacaeab 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"path/filepath"
+	"strings"
 
 	"github.com/dpastoor/goutils"
 	"github.com/metrumresearchgroup/pkgr/cran"
@@ -12,6 +13,9 @@ import (
 	"github.com/spf13/afero"
 )
 
+// BackupPrefix marks the directory a package is moved to while it is being updated.
+const BackupPrefix = "__OLD__"
+
 // GetPriorInstalledPackages ...
 func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[string]desc.Desc {
 	installed := make(map[string]desc.Desc)
@@ -27,6 +31,13 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
+		// A backup left by an interrupted run only counts when it is all there is.
+		if active := strings.TrimPrefix(pkgFolder, BackupPrefix); active != pkgFolder {
+			if ok, _ := afero.DirExists(fileSystem, filepath.Join(libraryPath, active)); ok {
+				continue
+			}
+		}
+
 		descriptionFilePath := filepath.Join(libraryPath, pkgFolder, "DESCRIPTION")
 		installedPackage, err := scanInstalledPackage(descriptionFilePath, fileSystem)
 
diff --git a/rollback/operations.go b/rollback/operations.go
index fd901cf..a7938bc 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -2,11 +2,44 @@ package rollback
 
 import (
 	"github.com/metrumresearchgroup/pkgr/cran"
+	"github.com/metrumresearchgroup/pkgr/pacman"
 	"github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"path/filepath"
+	"strings"
 )
 
+// RecoverBackups settles the backup folders that an interrupted run left in the library: a package that is only
+// there as a backup is put back, and a backup of a package that is there is removed.
+func RecoverBackups(fileSystem afero.Fs, library string) error {
+	if ok, _ := afero.DirExists(fileSystem, library); !ok {
+		return nil
+	}
+	entries, err := afero.ReadDir(fileSystem, library)
+	if err != nil {
+		return err
+	}
+	for _, entry := range entries {
+		pkg := strings.TrimPrefix(entry.Name(), pacman.BackupPrefix)
+		if !entry.IsDir() || pkg == entry.Name() || pkg == "" {
+			continue
+		}
+		backup := filepath.Join(library, entry.Name())
+		active := filepath.Join(library, pkg)
+		activeExists, err := afero.Exists(fileSystem, active)
+		if err == nil && activeExists {
+			err = fileSystem.RemoveAll(backup)
+		} else if err == nil {
+			logrus.WithField("pkg", pkg).Warn("restoring package left as a backup by an interrupted run")
+			err = fileSystem.Rename(backup, active)
+		}
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // RollbackPackageEnvironment "executes" the given RollbackPlan, thereby resetting the environment to the state it was in before rbp.InstallPlan was applied.
 func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 
-- 
2.43.0


From d00410ba85f0145f65cbb8da37bd6764a0c980e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 07/46] fix: a download is complete or it fails

A response other than 200 and a cut-off transfer were not failures: the
first made R install the current directory, the second left a partial
file in the cache that later runs took for the package.
---
 cran/download-package.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/cran/download-package.go b/cran/download-package.go
index 538efbc..38d5ddc 100644
--- a/cran/download-package.go
+++ b/cran/download-package.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -89,6 +90,7 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 		}
 	}
 	log.WithField("dir", baseDir).Info("downloading required packages within directory ")
+	failed := make(chan string, len(ds))
 	for _, d := range ds {
 		wg.Add(1)
 		go func(d PkgDl, wg *sync.WaitGroup) {
@@ -123,9 +125,8 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 			startDl := time.Now()
 			dl, err := DownloadPackage(fs, d, pkgFile, rv, noSecure)
 			if err != nil {
-				// TODO:  should this cause a failure downstream rather than just printing
-				// as right now it keeps running and just doesn't install that package?
-				log.WithField("package", d.Package.Package).Warn("downloading failed")
+				log.WithField("package", d.Package.Package).WithField("err", err).Warn("downloading failed")
+				failed <- d.Package.Package
 				return
 			}
 
@@ -140,6 +141,15 @@ func DownloadPackages(fs afero.Fs, ds []PkgDl, baseDir string, rv RVersion, noSe
 		}(d, &wg)
 	}
 	wg.Wait()
+	close(failed)
+	var failedPkgs []string
+	for pkg := range failed {
+		failedPkgs = append(failedPkgs, pkg)
+	}
+	if len(failedPkgs) > 0 {
+		sort.Strings(failedPkgs)
+		return result, fmt.Errorf("could not download: %s", strings.Join(failedPkgs, ", "))
+	}
 	log.WithField("duration", time.Since(startTime)).Info("all packages downloaded")
 	return result, nil
 }
@@ -216,7 +226,7 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 			}).Warn("bad server response")
 			b, _ := ioutil.ReadAll(resp.Body)
 			log.WithField("package", d.Package.Package).Println("body: ", string(b))
-			return Download{Metadata: d}, err
+			return Download{Metadata: d}, fmt.Errorf("bad server response for %s: %s", pkgdl, resp.Status)
 		}
 		from = resp.Body
 		// not sure if we need to close both from and resp.Body but shouldn't be problematic to call twice just in case
@@ -232,7 +242,8 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		defer from.Close()
 	}
 
-	file, err := fs.Create(dest)
+	// Only a complete download may appear under the name later runs look for.
+	file, err := afero.TempFile(fs, filepath.Dir(dest), ".download-")
 	if err != nil {
 		log.WithFields(log.Fields{
 			"package": d.Package,
@@ -240,9 +251,18 @@ func DownloadPackage(fs afero.Fs, d PkgDl, dest string, rv RVersion, noSecure bo
 		}).Warn("error downloading package, no tarball created")
 		return Download{}, err
 	}
-	defer file.Close()
 	size, err := io.Copy(file, from)
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = fs.Chmod(file.Name(), 0644)
+	}
+	if err == nil {
+		err = fs.Rename(file.Name(), dest)
+	}
 	if err != nil {
+		fs.Remove(file.Name())
 		return Download{Metadata: d}, err
 	}
 
-- 
2.43.0


From 936969d8ea4f1dc9ac8275d58300afc33c40e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 08/46] fix: a built binary is complete in the cache or absent

A copy that stopped half way left a truncated binary that later runs
installed from.
---
 rcmd/install.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 444a7fe..eb55247 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -483,10 +483,15 @@ func InstallPackagePlan(
 						rs.Version.ToString(),
 						filepath.Base(iu.BinaryPath),
 					)
-					_, err := goutils.Copy(iu.BinaryPath, bpath)
+					// only a complete binary may appear under the name later runs look for
+					_, err := goutils.Copy(iu.BinaryPath, bpath+".part")
+					if err == nil {
+						err = os.Rename(bpath+".part", bpath)
+					}
 					log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Trace("copied binary")
 					if err != nil {
 						log.WithFields(log.Fields{"from": iu.BinaryPath, "to": bpath}).Error("error copying binary")
+						os.Remove(bpath + ".part")
 						return
 					}
 					// want to delete binaries from the existing tmpdir
-- 
2.43.0


From 4596f8558c41e237178db450ee7dd393e686a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 09/46] fix: a damaged cached package database is fetched again

An interrupted run could leave a truncated database, which made every
run fail for the next hour.
---
 cran/repodb.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 07014ee..c663b6c 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -69,7 +69,8 @@ func (repoDb *RepoDb) Encode(file string) error {
 	if err != nil {
 		return err
 	}
-	f, err := os.Create(file)
+	// only a complete database may appear under the name later runs look for
+	f, err := ioutil.TempFile(filepath.Dir(file), ".encode-")
 	if err != nil {
 		return err
 	}
@@ -77,10 +78,19 @@ func (repoDb *RepoDb) Encode(file string) error {
 
 	// Encoding the map
 	err = e.Encode(repoDb.DescriptionsBySourceType)
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Chmod(f.Name(), 0644)
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), file)
+	}
 	if err != nil {
-		return err
+		os.Remove(f.Name())
 	}
-	return nil
+	return err
 }
 
 // Hash provides a hash based on the RepoDb sources
@@ -133,7 +143,14 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 		if fi.ModTime().Add(time.Duration(maxSecs)*time.Second).Unix() > time.Now().Unix() {
 			// only read if was cached in the last hour
-			return repoDb.Decode(pkgdbFile)
+			err := repoDb.Decode(pkgdbFile)
+			if err == nil {
+				return nil
+			}
+			log.Warnf("could not read cached package database %s: %s, fetching it again", pkgdbFile, err)
+			for st := range repoDb.DescriptionsBySourceType {
+				repoDb.DescriptionsBySourceType[st] = make(map[string]desc.Desc)
+			}
 		}
 		err := os.Remove(pkgdbFile)
 		if err != nil {
-- 
2.43.0


From a40eaa59e2a9599293ca3c51b6b77b1368eebf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 10/46] fix: a repository that could not be read is an error
 and is not remembered as empty

With one package type, a failed fetch left an empty database in the cache
for an hour; with two, a transient failure of one did the same for it.
---
 cran/repodb.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index c663b6c..33ccc9f 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -162,6 +162,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		St                    SourceType
 		AvailableDescriptions map[string]desc.Desc
 		Err                   error
+		Absent                bool // the repository says it has no such database
 	}
 
 	client := &http.Client{}
@@ -192,6 +193,7 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 					downloadChannel <- downloadDatabase{
 						St:                    st,
 						AvailableDescriptions: descriptionMap,
+						Absent:                res.StatusCode == http.StatusNotFound || res.StatusCode == http.StatusGone,
 						Err:                   fmt.Errorf("failed fetching PACKAGES file from %s, with status %s", pkgURL, res.Status)}
 					return
 				}
@@ -215,9 +217,14 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 				if fi, err := os.Open(pkgdir); !os.IsNotExist(err) {
 					body, err = ioutil.ReadAll(fi)
 					fi.Close()
+					if err != nil {
+						err = fmt.Errorf("problem reading package file at %s: %s", pkgdir, err)
+						downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
+						return
+					}
 				} else {
 					err = fmt.Errorf("no package file found at: %s", pkgdir)
-					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err}
+					downloadChannel <- downloadDatabase{St: st, AvailableDescriptions: descriptionMap, Err: err, Absent: true}
 					return
 				}
 			}
@@ -267,12 +274,14 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 
 	}
 	errorCount := 0
+	complete := true
 	var lasterr error
 	for i := 0; i < len(repoDb.DescriptionsBySourceType); i++ {
 		result := <-downloadChannel
 		if result.Err != nil {
 			log.Warnf("error downloading repo %s, type: %s, with information: %s\n", repoDb.Repo.Name, result.St, result.Err)
 			errorCount++
+			complete = complete && result.Absent
 			lasterr = result.Err
 			// if one repo fails should return the error and not continue
 			// as don't want a partial repodb as it might cause improperly pulled packages
@@ -281,9 +290,13 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 	}
 	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if len(repoDb.DescriptionsBySourceType) > 1 && errorCount == len(repoDb.DescriptionsBySourceType) {
+	if errorCount == len(repoDb.DescriptionsBySourceType) {
 		return lasterr
 	}
+	// a type that could not be read must not be remembered as having no packages
+	if !complete {
+		return nil
+	}
 
 	return repoDb.Encode(pkgdbFile)
 }
-- 
2.43.0


From 4a823025361519d2f9d849ec976478bb7b68886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 11/46] fix: a requirement on R without a version is always met

A package with a bare 'Depends: R' was treated as unusable.
---
 cran/repodb.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 33ccc9f..781fae2 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -332,6 +332,8 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) <= 0
 	case desc.Equals:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) == 0
+	case desc.None:
+		packageValid = true
 	default:
 		break
 	}
-- 
2.43.0


From 5048fb02fffa25a568106260ba5cff6a54043b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 12/46] fix: parse versions of one and of five components

A requirement such as 'R (>= 4)' crashed, and the fourth and fifth of
five components were both read as zero.
---
 desc/version.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/desc/version.go b/desc/version.go
index 84dda6c..e69fd7f 100644
--- a/desc/version.go
+++ b/desc/version.go
@@ -8,9 +8,11 @@ import (
 // ParseVersion parses a package string to a version
 func ParseVersion(v string) Version {
 	ver := Version{String: v}
-	parts := regexp.MustCompile(`[\.-]`).Split(v, 4)
+	parts := regexp.MustCompile(`[\.-]`).Split(v, -1)
 	ver.Major, _ = strconv.Atoi(parts[0])
-	ver.Minor, _ = strconv.Atoi(parts[1])
+	if len(parts) > 1 {
+		ver.Minor, _ = strconv.Atoi(parts[1])
+	}
 	if len(parts) > 2 {
 		ver.Patch, _ = strconv.Atoi(parts[2])
 	}
-- 
2.43.0


From 94dd6dffb2d86b54ffae5f2eba262c618b6fc6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 13/46] fix: do not plan base and turned-off recommended
 packages that are only suggested

---
 gpsr/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpsr/helpers.go b/gpsr/helpers.go
index 9258516..21f9066 100644
--- a/gpsr/helpers.go
+++ b/gpsr/helpers.go
@@ -62,7 +62,7 @@ func appendToGraph(m Graph, d desc.Desc, dependencyConfigs InstallDeps, pkgNexus
 			if r != "R" && !ok {
 				//fmt.Println(d.Package, "-->", r)
 				pkg, _, exists := pkgNexus.GetPackage(r)
-				if exists {
+				if exists && !isExcludedPackage(r, dependencyConfig.NoRecommended) {
 					appendToGraph(m, pkg, dependencyConfigs, pkgNexus)
 				}
 			}
-- 
2.43.0


From 1e1ccb941aad1144f992941716a0c0126a4d974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 14/46] fix: a package customized to a repository keeps that
 repository's type

Any customization of a package made it ignore the type its repository is
customized to.
---
 cran/pkg_nexus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cran/pkg_nexus.go b/cran/pkg_nexus.go
index c235fa4..b64410e 100644
--- a/cran/pkg_nexus.go
+++ b/cran/pkg_nexus.go
@@ -133,7 +133,8 @@ func (pkgNexus *PkgNexus) GetPackage(pkg string) (desc.Desc, PkgConfig, bool) {
 	}
 	for _, db := range pkgNexus.Db {
 		rst := st
-		if db.DefaultSourceType != rst && !exists && db.DefaultSourceType != Default {
+		typeCustomized := exists && cfg.Type != Default
+		if db.DefaultSourceType != rst && !typeCustomized && db.DefaultSourceType != Default {
 			rst = db.DefaultSourceType
 		}
 		// For now package existence is checked exactly as the package is specified
-- 
2.43.0


From 6c7cf705a5e3f25034c412d0c3dace2831994d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 15/46] fix: only planned packages are reported as outdated

Installed packages outside the plan were announced as about to be updated
and counted, but never updated.
---
 gpsr/solution.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index 3816786..d8393d1 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -80,7 +80,14 @@ func ResolveInstallationReqs(
 		}
 	}
 
-	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(extractNamesFromDesc(preinstalledPkgs)).Packages)
+	// packages that are installed but not part of the plan are neither reported nor touched
+	var plannedInstalled []string
+	for _, p := range extractNamesFromDesc(preinstalledPkgs) {
+		if _, planned := workingGraph[p]; planned {
+			plannedInstalled = append(plannedInstalled, p)
+		}
+	}
+	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(plannedInstalled).Packages)
 
 	installPlan := InstallPlan{
 		StartingPackages:  resolved[0],
-- 
2.43.0


From a9daba71e7eff121e0d6d844ca860c9b2f2a55aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 16/46] fix: install the Depends packages of tarballs and
 DESCRIPTION files

Only Imports and LinkingTo were collected, so a tarball could be
installed without packages it depends on.
---
 desc/structs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desc/structs.go b/desc/structs.go
index 01806d7..88272eb 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -81,6 +81,12 @@ type Desc struct {
 func (d *Desc) GetCombinedDependencies(suggests bool) map[string]Dep {
 	combined := map[string]Dep{}
 
+	for key, value := range d.Depends {
+		// a requirement on R is not a package
+		if key != "R" {
+			combined[key] = value
+		}
+	}
 	for key, value := range d.Imports {
 		combined[key] = value
 	}
-- 
2.43.0


From 346f4fc2007abd7324757f31dc6200473bd09c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 17/46] fix: a tarball is unpacked completely or not at all

A damaged tarball, or a run killed while unpacking, left a partial copy
that later runs installed.
---
 cmd/tarballOps.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/tarballOps.go b/cmd/tarballOps.go
index 4bbd650..d5b11ac 100644
--- a/cmd/tarballOps.go
+++ b/cmd/tarballOps.go
@@ -84,8 +84,14 @@ func untar(fs afero.Fs, path string, cacheDir string) string {
 			"source_tarball": path,
 		}).Debug("using cached tarball.")
 	} else {
-		err = archive.Extract(path, tarballDirectoryPath)
+		// only a completely unpacked tarball may appear under the name later runs look for
+		partialPath := tarballDirectoryPath + ".part"
+		err = archive.Extract(path, partialPath)
+		if err == nil {
+			err = fs.Rename(partialPath, tarballDirectoryPath)
+		}
 		if err != nil {
+			_ = fs.RemoveAll(partialPath)
 			logrus.WithFields(logrus.Fields{
 				"path": path,
 			}).Fatalf("error while unarchiving tarball: %s", err)
-- 
2.43.0


From fc3cc727b0cdb3602364f49e3bc6fce8c2cdf848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 18/46] fix: add and remove edit exactly the Packages section

'remove' deleted every list entry of any section starting with the name,
so removing 'a' also took 'abc' and customizations; 'add' broke inline
and empty lists, wrote repeated names twice and rewrote unchanged files.
---
 configlib/add_package.go | 214 +++++++++++++++++++++++++++++++--------
 configlib/config.go      |  33 +++---
 2 files changed, 184 insertions(+), 63 deletions(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 75a816c..6138281 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -1,16 +1,15 @@
 package configlib
 
 import (
-	"bufio"
-	"bytes"
 	"fmt"
-	"github.com/dpastoor/goutils"
+	"os"
+	"strings"
+
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
 	"github.com/spf13/viper"
 	"github.com/thoas/go-funk"
 	"gopkg.in/yaml.v3"
-	"strings"
 )
 
 // AddPackage add a package to the Package section of the yml config file
@@ -22,30 +21,80 @@ func AddPackages(pkgs []string) error {
 	if err != nil {
 		return err
 	}
-	var lines []string
-	scanner := bufio.NewScanner(bytes.NewReader(yf))
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
-	}
-
-	var pc PkgrConfig
-	err = yaml.Unmarshal(yf, &pc)
+	listed, err := listedPackages(yf)
 	if err != nil {
 		return err
 	}
 
 	for _, p := range pkgs {
-		if funk.ContainsString(pc.Packages, p) {
+		if funk.ContainsString(listed, p) || funk.ContainsString(pkgsToInstall, p) {
 			log.Debug(fmt.Sprintf("Package <%s> already found in <%s>", p, ymlfile))
 			continue
 		}
 		pkgsToInstall = append(pkgsToInstall, p)
 	}
-	newYml := insertPackages(lines, pkgsToInstall...)
-	err = goutils.WriteLines(newYml, ymlfile)
-	return err
+	if len(pkgsToInstall) == 0 {
+		return nil
+	}
+	newYml := strings.Join(insertPackages(strings.Split(string(yf), "\n"), pkgsToInstall...), "\n")
+	return writePackages(appFS, ymlfile, newYml, append(pkgsToInstall, listed...))
+}
+
+// writePackages writes the edited config file, given that it lists exactly the expected packages.
+func writePackages(fs afero.Fs, ymlfile string, yml string, expected []string) error {
+	listed, err := listedPackages([]byte(yml))
+	if err == nil && strings.Join(listed, "\n") != strings.Join(expected, "\n") {
+		err = fmt.Errorf("unsupported layout of the Packages section")
+	}
+	if err != nil {
+		return fmt.Errorf("could not edit %s: %w", ymlfile, err)
+	}
+	fi, err := os.Stat(ymlfile)
+	if err != nil {
+		return err
+	}
+	return afero.WriteFile(fs, ymlfile, []byte(yml), fi.Mode())
+}
+
+// findPackages returns the top-level mapping of the config file and the key and the value of its Packages section,
+// nil when there is none.
+func findPackages(yml []byte) (root, key, value *yaml.Node, err error) {
+	var doc yaml.Node
+	if err := yaml.Unmarshal(yml, &doc); err != nil {
+		return nil, nil, nil, err
+	}
+	if len(doc.Content) == 0 || doc.Content[0].Kind != yaml.MappingNode {
+		return nil, nil, nil, nil
+	}
+	root = doc.Content[0]
+	for i := 0; i+1 < len(root.Content); i += 2 {
+		// like the rest of the configuration, the name is not case sensitive
+		if strings.EqualFold(root.Content[i].Value, "Packages") {
+			key, value = root.Content[i], root.Content[i+1]
+		}
+	}
+	return root, key, value, nil
+}
+
+func listedPackages(yml []byte) ([]string, error) {
+	var pkgs []string
+	_, _, value, err := findPackages(yml)
+	if err != nil || value == nil || value.Tag == "!!null" {
+		return pkgs, err
+	}
+	err = value.Decode(&pkgs)
+	return pkgs, err
 }
 
+// columnOffset converts a column of the yaml parser, which counts characters from 1, to an offset in the line.
+func columnOffset(line string, column int) int {
+	for i := range line {
+		if column--; column == 0 {
+			return i
+		}
+	}
+	return len(line)
+}
 
 // insert packages will look for Packages: and add packages beneth
 // if no Packages: line is found (eg if only tarballs/descriptions
@@ -63,40 +112,117 @@ func AddPackages(pkgs []string) error {
 // 	- dplyr
 // 	  - ggplot2
 func insertPackages(lines []string, pkgs ...string) []string {
-	var packageStartIndex int
-	var packagesSet bool
-	var outputLines []string
-	for i, line := range lines {
-		if strings.HasPrefix(line, "Packages:")	{
-			packagesSet = true
-			packageStartIndex = i
+	root, key, value, err := findPackages([]byte(strings.Join(lines, "\n")))
+	if err != nil {
+		return lines
+	}
+	var entries []string
+	for _, pkg := range pkgs {
+		// quoted where a plain name would not be read as text
+		entry, err := yaml.Marshal(pkg)
+		if err != nil {
+			return lines
 		}
+		entries = append(entries, strings.TrimSpace(string(entry)))
+	}
+	outputLines := append([]string{}, lines...)
+	eol := ""
+	if strings.HasSuffix(lines[0], "\r") {
+		eol = "\r"
 	}
-	if packageStartIndex == 0 && !packagesSet {
-		outputLines = lines
-		outputLines = append(outputLines, "", "Packages:")
-		for _, pkg := range pkgs {
-			outputLines = append(outputLines, "- " + pkg)
+
+	if key == nil {
+		padding := ""
+		if root != nil {
+			padding = strings.Repeat(" ", root.Column-1)
 		}
-	} else {
-		outputLines = append(outputLines, lines[:packageStartIndex+1]...)
-		// given comments might precede packages, we need to find the first non-comment line
-		var firstPackageIndex int
-		for i, l := range lines[packageStartIndex:] {
-			if strings.HasPrefix(strings.TrimSpace(l), "-") {
-				firstPackageIndex = i
-				break
-			}
+		last := len(outputLines) - 1
+		final := outputLines[last]
+		if final == "" {
+			// the file ends with a line end
+			outputLines = outputLines[:last]
+		} else {
+			outputLines[last] += eol
+		}
+		outputLines = append(outputLines, eol, padding+"Packages:"+eol)
+		for _, entry := range entries {
+			outputLines = append(outputLines, padding+"- "+entry+eol)
 		}
-		numPadding := strings.Index(lines[packageStartIndex+firstPackageIndex], "-")
+		return append(outputLines, "")
+	}
 
-		padding := strings.Repeat(" ", numPadding)
-		for _, pkg := range pkgs {
-			outputLines = append(outputLines, padding + "- " + pkg)
+	start := value.Line - 1
+	if value.Kind == yaml.SequenceNode && value.Style&yaml.FlowStyle != 0 {
+		// [dplyr, ggplot2]
+		offset := columnOffset(lines[start], value.Column) + 1
+		text := strings.Join(entries, ", ")
+		if len(value.Content) > 0 {
+			text += ", "
 		}
-		outputLines = append(outputLines, lines[packageStartIndex+1:]...)
+		outputLines[start] = lines[start][:offset] + text + lines[start][offset:]
+		return outputLines
 	}
 
-	return outputLines
+	padding := strings.Repeat(" ", key.Column-1)
+	if value.Kind == yaml.SequenceNode {
+		padding = strings.Repeat(" ", value.Column-1)
+	} else if value.Value != "" {
+		// an explicit null
+		offset := columnOffset(lines[start], value.Column)
+		outputLines[start] = lines[start][:offset] + lines[start][offset+len(value.Value):]
+	}
+	var inserted []string
+	for _, entry := range entries {
+		inserted = append(inserted, padding+"- "+entry+eol)
+	}
+	rest := append([]string{}, outputLines[key.Line:]...)
+	if len(rest) == 0 {
+		// the section is the unterminated last line
+		outputLines[key.Line-1] += eol
+		rest = []string{""}
+	}
+	outputLines = append(outputLines[:key.Line], inserted...)
+	return append(outputLines, rest...)
+}
 
-}
\ No newline at end of file
+// removePackage takes a package out of the Packages section of the given config file content.
+func removePackage(yml string, pkg string) (string, error) {
+	for {
+		_, _, value, err := findPackages([]byte(yml))
+		if err != nil {
+			return yml, err
+		}
+		var entry *yaml.Node
+		if value != nil && value.Kind == yaml.SequenceNode {
+			for _, e := range value.Content {
+				if e.Kind == yaml.ScalarNode && e.Value == pkg {
+					entry = e
+				}
+			}
+		}
+		if entry == nil {
+			return yml, nil
+		}
+		lines := strings.SplitAfter(yml, "\n")
+		first, last := entry.Line-1, entry.Line
+		if value.Style&yaml.FlowStyle == 0 {
+			// the dash may be on a line of its own
+			for first > 0 && !strings.HasPrefix(strings.TrimSpace(lines[first]), "-") {
+				first--
+			}
+			yml = strings.Join(append(append([]string{}, lines[:first]...), lines[last:]...), "")
+			continue
+		}
+		begin := len(strings.Join(lines[:first], "")) + columnOffset(lines[first], entry.Column)
+		end := begin + len(entry.Value)
+		if entry.Style&(yaml.SingleQuotedStyle|yaml.DoubleQuotedStyle) != 0 {
+			end += 2
+		}
+		before, after := strings.TrimRight(yml[:begin], " "), strings.TrimLeft(yml[end:], " ")
+		if strings.HasPrefix(after, ",") {
+			yml = yml[:begin] + strings.TrimLeft(after[1:], " ")
+		} else {
+			yml = strings.TrimSuffix(before, ",") + after
+		}
+	}
+}
diff --git a/configlib/config.go b/configlib/config.go
index 72a20fe..bfd8348 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -248,33 +248,28 @@ func RemovePackage(name string) error {
 // remove remove a package from the Package section of the yml config file
 func remove(ymlfile string, packageName string) error {
 	appFS := afero.NewOsFs()
-	yf, _ := afero.ReadFile(appFS, ymlfile)
-	fi, err := os.Stat(ymlfile)
+	yf, err := afero.ReadFile(appFS, ymlfile)
 	if err != nil {
 		return err
 	}
-	var out []byte
-	i := 0
-	lines := bytes.Split(yf, []byte("\n"))
-	for _, line := range lines {
-		i++
-		// trim the line to detect the start of the list of packages
-		// but do not write the trimmed string as it may cause an
-		// unneeded file diff to the yml file
-		sline := bytes.TrimLeft(line, " ")
-		if bytes.HasPrefix(sline, []byte("- "+packageName)) {
-			continue
-		}
-		out = append(out, line...)
-		if i < len(lines) {
-			out = append(out, []byte("\n")...)
+	listed, err := listedPackages(yf)
+	if err != nil {
+		return err
+	}
+	var remaining []string
+	for _, p := range listed {
+		if p != packageName {
+			remaining = append(remaining, p)
 		}
 	}
-	err = afero.WriteFile(appFS, ymlfile, out, fi.Mode())
+	if len(remaining) == len(listed) {
+		return nil
+	}
+	out, err := removePackage(string(yf), packageName)
 	if err != nil {
 		return err
 	}
-	return nil
+	return writePackages(appFS, ymlfile, out, remaining)
 }
 
 // SetCustomizations ... set ENV values in Rsettings
-- 
2.43.0


From 358a54f51bec94171b98259fc04d201a04722ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 19/46] fix: a relative --config in another directory works for
 every command

After changing to the directory of the config file, 'add', 'remove',
'add --install' and 'load' resolved its relative path once more.
---
 cmd/root.go         | 2 ++
 configlib/config.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/cmd/root.go b/cmd/root.go
index d28905d..ab26167 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -133,6 +133,8 @@ func initConfig() {
 		cfg.NoUpdate = false
 	}
 	configFilePath, _ := filepath.Abs(viper.ConfigFileUsed())
+	// 'add --install' reads the configuration again, from another working directory
+	viper.Set("config", configFilePath)
 	cwd, _ := os.Getwd()
 	log.WithFields(log.Fields{
 		"cwd": cwd,
diff --git a/configlib/config.go b/configlib/config.go
index bfd8348..3805ace 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -184,6 +184,10 @@ func loadConfigFromPath(configFilename string) error {
 		log.Fatalf("error binding env: %s\n", err)
 	}
 	configFilename, _ = homedir.Expand(filepath.Clean(configFilename))
+	// the working directory changes to the one of the config file later on
+	if abs, err := filepath.Abs(configFilename); err == nil {
+		configFilename = abs
+	}
 	viper.SetConfigFile(configFilename)
 	b, err := ioutil.ReadFile(configFilename)
 	// panic if can't find or parse config as this could be explicit to user expectations
-- 
2.43.0


From c4ec2d50c263fe104ffb7e9e544318c463660d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 20/46] fix: an absent Threads setting uses at most eight
 workers

The default set for it made an absent setting look like an explicit one,
so the documented cap of eight never applied.
---
 configlib/config.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/configlib/config.go b/configlib/config.go
index 3805ace..cd2fea4 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
-	"runtime"
 	"strings"
 
 	homedir "github.com/mitchellh/go-homedir"
@@ -219,8 +218,6 @@ func loadDefaultSettings() {
 	viper.SetDefault("loglevel", "info")
 	// path to R on system, defaults to R in path
 	viper.SetDefault("rpath", "R")
-	// setting this to GOMAXPROCS(0) because NumCPU() won't work well with the scheduler.
-	viper.SetDefault("threads", runtime.GOMAXPROCS(0))
 }
 
 // IsCustomizationSet ...
-- 
2.43.0


From eb9816f6a8bc3af6649e08267bcb5cc99f6c14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 21/46] fix: load with default threads, and load each package
 once

Without a positive Threads setting 'load' hung or crashed; a package
requested twice had its failure counted twice.
---
 cmd/load.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/load.go b/cmd/load.go
index d57d5e7..c53f577 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -8,6 +8,7 @@ import (
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	"github.com/metrumresearchgroup/pkgr/rcmd/rp"
 	"github.com/spf13/viper"
+	"github.com/thoas/go-funk"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -57,7 +58,7 @@ loaded from the expected library.`,
 			}).Fatal("error getting absolute Path for R directory")
 		}
 
-		load(cfg.Packages, rs, rDir, cfg.Threads, all, json)
+		load(cfg.Packages, rs, rDir, getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)), all, json)
 	},
 }
 
@@ -96,6 +97,9 @@ func load(userPackages []string, rs rcmd.RSettings, rDir string, threads int, al
 		toLoad = userPackages
 	}
 
+	// the report has one entry for each package
+	toLoad = funk.UniqString(toLoad)
+
 	report := InitLoadReport(getRSessionMetadata(rs, rDir))
 
 	resultsChannel := make(chan LoadResult, len(toLoad))
-- 
2.43.0


From 66f6acb3e6e47f6b24ccbafb52d231ab945b2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 22/46] fix: keep the library path of a build when it contains
 an equals sign

The package search path was dropped, so R fell back to its default
libraries.
---
 rcmd/nvp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/nvp.go b/rcmd/nvp.go
index 76b3265..cc183f5 100644
--- a/rcmd/nvp.go
+++ b/rcmd/nvp.go
@@ -12,7 +12,7 @@ func (list *NvpList) Append(name, value string) {
 
 // AppendNvp append a string of name=value pair to the list as an Nvp object
 func (list *NvpList) AppendNvp(nvp string) {
-	b := strings.Split(nvp, "=")
+	b := strings.SplitN(nvp, "=", 2)
 	if len(b) == 2 {
 		list.Append(b[0], b[1])
 	}
-- 
2.43.0


From 6481efaa8a81bc307e39775e6b518aba549bf3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 23/46] fix: put the configured R's directory first on PATH
 unless it is first

A PATH that started with a longer name, such as /opt/R-old for /opt/R,
counted as starting with the directory.
---
 rcmd/configure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index 4a73e6b..f483759 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -56,7 +56,7 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 			}
 			if evs[0] == "PATH" {
 				rDir := filepath.Dir(rs.Rpath)
-				if rDir != "" && rDir != "." && !strings.HasPrefix(evs[1], rDir) {
+				if rDir != "" && rDir != "." && filepath.SplitList(evs[1])[0] != rDir {
 					evs[1] = fmt.Sprintf("%s:%s", rDir, evs[1])
 					log.WithField("path", evs[1]).Debug("adding Rpath to front of system PATH")
 				}
-- 
2.43.0


From e49662c29b63d585a6240c327f99afa70d338b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 24/46] fix: pass inherited environment values to builds as
 they are

Leading and trailing spaces of every inherited value were removed.
---
 rcmd/configure.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rcmd/configure.go b/rcmd/configure.go
index f483759..6a48ae4 100644
--- a/rcmd/configure.go
+++ b/rcmd/configure.go
@@ -71,7 +71,8 @@ func configureEnv(sysEnvVars []string, rs RSettings, pkg string) []string {
 				if isCensored {
 					displayValue = "**HIDDEN**"
 				}
-				envList.Append(evs[0], displayValue)
+				// as is: Append would strip spaces off the value
+				envList.Pairs = append(envList.Pairs, Nvp{Name: evs[0], Value: displayValue})
 			}
 		}
 	}
-- 
2.43.0


From 9d0c6061a42dc17980462e1f21e80aef122ead01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 25/46] fix: keep databases and packages of different
 repository suffixes apart

Changing RepoSuffix kept using the databases and binaries cached for the
previous suffix.
---
 cran/repodb.go | 2 +-
 cran/utils.go  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 781fae2..9aca804 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -104,7 +104,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+fmt.Sprint(stsum)+rVersion)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+repoDb.RepoSuffix+fmt.Sprint(stsum)+rVersion)
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
diff --git a/cran/utils.go b/cran/utils.go
index a9cc0d2..fe3c82d 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -162,6 +162,8 @@ func RepoURLHash(r RepoURL) string {
 	h := md5.New()
 	// don't hash everything as still want a reasonable identifier
 	io.WriteString(h, r.URL)
+	// binaries of different suffixes are different packages
+	io.WriteString(h, r.Suffix)
 	urlHash := fmt.Sprintf("%x", h.Sum(nil))
 	return r.Name + "-" + urlHash[:12]
 }
-- 
2.43.0


From b206fe1913c626ad29ba857bbc77e20a37d2ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 26/46] fix: clean the unpacked tarballs of the default cache
 too

Without a Cache setting the directory to remove was looked for in the
working directory. A cache that does not exist crashed the command.
---
 cmd/cleanCache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 923c19c..1c554dd 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -113,7 +113,7 @@ func cleanCacheFolders() error {
 			continue
 		}
 		openedTgz.Close()
-		err = fs.RemoveAll(filepath.Join(cfg.Cache, hashedDirectoryName))
+		err = fs.RemoveAll(filepath.Join(cachePath, hashedDirectoryName))
 		if err != nil {
 			log.WithFields(log.Fields{
 				"file":  tgzFile,
@@ -136,10 +136,10 @@ func deleteCacheSubfolders(fs afero.Fs, repos []string, subfolder string, cacheD
 
 	//Filesystem object for the cache directory
 	cacheDirFsObject, err := fs.Open(cacheDirectory)
-	defer cacheDirFsObject.Close()
 	if err != nil {
 		return err
 	}
+	defer cacheDirFsObject.Close()
 
 	//File info object, I guess I needed this
 	cacheDirObject, _ := cacheDirFsObject.Readdir(0)
-- 
2.43.0


From ce524a38485fac61f044242d913083285538171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 27/46] fix: 'clean --all' leaves no unpacked tarballs behind

Cleaning the databases after the cache unpacked the tarballs again.
---
 cmd/clean.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/clean.go b/cmd/clean.go
index 9ac98ff..562cd66 100644
--- a/cmd/clean.go
+++ b/cmd/clean.go
@@ -63,11 +63,12 @@ func clean(cmd *cobra.Command, args []string) error {
 	}
 	if cleanAll {
 		fmt.Println("Cleaning all.")
-		err = cleanCacheFolders()
+		// finding the databases unpacks tarballs into the cache
+		err = cleanPackageDatabases("ALL")
 		if err != nil {
 			return err
 		}
-		err = cleanPackageDatabases("ALL")
+		err = cleanCacheFolders()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 3d3adfe1e5e3090e7ca70c3992057530f690770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 28/46] fix: record the origin of a package without damaging
 its DESCRIPTION

Lines of other fields that mention PkgrVersion and the like were dropped,
an original repository containing a colon was cut off there, and an
OriginalRepository field could end up twice.
---
 rcmd/install.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index eb55247..3f2e835 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -606,19 +606,30 @@ func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string)
 // returns the updated string slice, still without new-line characters.
 func updateDescriptionInfoByLines(lines []string, version, installType, repoURL, repo string) []string {
 
+	isOtherRepo := func(line string) bool {
+		return strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+repo)
+	}
+	replaceRepo := false
+	for _, line := range lines {
+		replaceRepo = replaceRepo || isOtherRepo(line)
+	}
+
 	var newLines []string
 	for _, line := range lines {
 		//log.Info("Starting repo: " + repo)
 
 		// Don't add these lines to final set, if they exist. This way, we can add/"overwrite" them at the end.
-		if strings.Contains(line, "PkgrVersion:") ||
-			strings.Contains(line, "PkgrInstallType:") ||
-			strings.Contains(line, "PkgrRepositoryURL") {
+		if strings.HasPrefix(line, "PkgrVersion:") ||
+			strings.HasPrefix(line, "PkgrInstallType:") ||
+			strings.HasPrefix(line, "PkgrRepositoryURL:") {
+			continue
+		}
+		if replaceRepo && strings.HasPrefix(line, "OriginalRepository:") {
 			continue
 		}
 
-		if strings.HasPrefix(line, "Repository:") && strings.TrimSpace(line) != strings.TrimSpace("Repository: "+ repo) {
-			originalRepo := strings.Trim(strings.Split(line, ":")[1], " ")
+		if isOtherRepo(line) {
+			originalRepo := strings.Trim(strings.TrimPrefix(line, "Repository:"), " ")
 			newLines = append(newLines, "OriginalRepository: "+originalRepo)
 			line = "Repository: " + repo
 		}
-- 
2.43.0


From 2a59750f8a3fdedb0fabfba9a301d401a8c7189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 29/46] fix: a plan without repository packages no longer
 crashes

---
 gpsr/solution.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpsr/solution.go b/gpsr/solution.go
index d8393d1..08cb7e9 100644
--- a/gpsr/solution.go
+++ b/gpsr/solution.go
@@ -89,8 +89,14 @@ func ResolveInstallationReqs(
 	}
 	outdatedPackages := pacman.GetOutdatedPackages(preinstalledPkgs, pkgNexus.GetPackages(plannedInstalled).Packages)
 
+	// without any repository package (say, only tarballs that need none) there are no layers
+	var startingPackages []string
+	if len(resolved) > 0 {
+		startingPackages = resolved[0]
+	}
+
 	installPlan := InstallPlan{
-		StartingPackages:  resolved[0],
+		StartingPackages:  startingPackages,
 		DepDb:             depDb,
 		InstalledPackages: preinstalledPkgs,
 		OutdatedPackages:  outdatedPackages,
-- 
2.43.0


From 960d928e5a7e4397b6d1872269a739cec25fcd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 30/46] fix: a very long line does not cut the rest off an
 installed DESCRIPTION

---
 rcmd/install.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 3f2e835..1353290 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -577,10 +577,15 @@ func writeDescriptionInfo(fs afero.Fs, ir InstallRequest, ia InstallArgs) {
 // function to apply relevant changes to DESCRIPTION file (if applicable) and ultimately write out the updated
 // DESCRIPTION file.
 func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL, repo string) ([]string, error) {
-	descriptionLines, err := goutils.ReadLinesFS(fs, filename)
+	// not read through a line scanner, which would drop everything from the first very long line on
+	content, err := afero.ReadFile(fs, filename)
 	if err != nil {
 		return nil, err
 	}
+	descriptionLines := strings.Split(strings.TrimSuffix(string(content), "\n"), "\n")
+	for i, line := range descriptionLines {
+		descriptionLines[i] = strings.TrimSuffix(line, "\r")
+	}
 	descriptionFinal := updateDescriptionInfoByLines(descriptionLines, version, installType, repoURL, repo)
 	err = writeUpdatedDescriptionFile(fs, filename, descriptionFinal)
 
-- 
2.43.0


From 037dab2cfd03e94111c41efc9293d8556c575119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 31/46] fix: keep R output with very long lines in the load
 report

---
 rcmd/rp/lines.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rcmd/rp/lines.go b/rcmd/rp/lines.go
index 0e607b0..ee72bb6 100644
--- a/rcmd/rp/lines.go
+++ b/rcmd/rp/lines.go
@@ -18,6 +18,8 @@ func ScanLines(b []byte) []string {
 // with all input-like lines (which start with ">") excluded.
 func ScanROutput(b []byte, outputOnly bool) []string {
 	scanner := bufio.NewScanner(bytes.NewBuffer(b))
+	// lines of any length, as a longer one than the scanner's buffer ends the scan
+	scanner.Buffer(nil, len(b)+bufio.MaxScanTokenSize)
 	output := []string{}
 	re := regexp.MustCompile("^\\[\\d+\\]")
 	for scanner.Scan() {
-- 
2.43.0


From fa82d3bca49ff6a05cb2429d0327b3fac00a730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 32/46] fix: cached package databases with and without binary
 packages are kept apart

---
 cran/repodb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 9aca804..5e6a74f 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -104,7 +104,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+repoDb.RepoSuffix+fmt.Sprint(stsum)+rVersion)
+	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+repoDb.RepoSuffix+fmt.Sprint(int(stsum))+rVersion)
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
-- 
2.43.0


From e4d8b0c67a2249a92a82d813eb6fd893ea1a3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 33/46] fix: names, addresses and suffixes that run together
 the same are kept apart in the caches

---
 cran/repodb.go | 2 +-
 cran/utils.go  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index 5e6a74f..41106b3 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -104,7 +104,7 @@ func (repoDb *RepoDb) Hash(rVersion string) string {
 		stsum += st + 1
 	}
 
-	io.WriteString(h, repoDb.Repo.Name+repoDb.Repo.URL+repoDb.RepoSuffix+fmt.Sprint(int(stsum))+rVersion)
+	io.WriteString(h, strings.Join([]string{repoDb.Repo.Name, repoDb.Repo.URL, repoDb.RepoSuffix, fmt.Sprint(int(stsum)), rVersion}, "\x00"))
 	return fmt.Sprintf("%x", h.Sum(nil))
 }
 
diff --git a/cran/utils.go b/cran/utils.go
index fe3c82d..a73168a 100644
--- a/cran/utils.go
+++ b/cran/utils.go
@@ -163,7 +163,9 @@ func RepoURLHash(r RepoURL) string {
 	// don't hash everything as still want a reasonable identifier
 	io.WriteString(h, r.URL)
 	// binaries of different suffixes are different packages
-	io.WriteString(h, r.Suffix)
+	if r.Suffix != "" {
+		io.WriteString(h, "\x00"+r.Suffix)
+	}
 	urlHash := fmt.Sprintf("%x", h.Sum(nil))
 	return r.Name + "-" + urlHash[:12]
 }
-- 
2.43.0


From 3f0a091b0009e0ceb8bf4eba31665128dec5c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 34/46] fix: a killed run never leaves an installed package
 without its DESCRIPTION

---
 rcmd/install.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rcmd/install.go b/rcmd/install.go
index 1353290..f366d5d 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -594,7 +594,17 @@ func updateDescriptionInfo(fs afero.Fs, filename, version, installType, repoURL,
 
 // writes a slice of strings out to a file. Adds newline characters to the end of the each line.
 func writeUpdatedDescriptionFile(fs afero.Fs, filename string, update []string) error {
-	err := goutils.WriteLinesFS(fs, update, filename)
+	// a run that is killed here must not leave a package without its DESCRIPTION
+	tmp := filename + ".part"
+	err := goutils.WriteLinesFS(fs, update, tmp)
+	if err == nil {
+		if info, errStat := fs.Stat(filename); errStat == nil {
+			err = fs.Chmod(tmp, info.Mode())
+		}
+	}
+	if err == nil {
+		err = fs.Rename(tmp, filename)
+	}
 
 	if err != nil {
 		log.WithFields(log.Fields{
-- 
2.43.0


From 9e705dcb75c640e9ed4a895fd72c83428102bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 35/46] fix: clean package databases without reading the
 repositories

---
 cmd/cleanPkgdb.go | 11 ++++----
 cmd/plan.go       | 70 +++++++++++++++++++++++++----------------------
 cran/repodb.go    | 12 +++++++-
 3 files changed, 55 insertions(+), 38 deletions(-)

diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index 09a5124..4832b84 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -18,6 +18,7 @@ import (
 	"strings"
 
 	"github.com/metrumresearchgroup/pkgr/configlib"
+	"github.com/metrumresearchgroup/pkgr/cran"
 
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	log "github.com/sirupsen/logrus"
@@ -86,14 +87,14 @@ func removePackageDatabases(pkgdbsToClear []string, cfg configlib.PkgrConfig) er
 
 	rs := rcmd.NewRSettings(cfg.RPath)
 
-	pkgNexus, _, _ := planInstall(rs.Version, false)
-	repoDatabases := pkgNexus.Db
+	// the repositories themselves need not be readable for this
+	repos, cic := configuredRepos(cfg)
 
 	for _, dbToClear := range pkgdbsToClear {
-		for _, repoDatabase := range repoDatabases {
-			if repoDatabase.Repo.Name == dbToClear {
+		for _, repo := range repos {
+			if repo.Name == dbToClear {
 				log.WithField("dbToClear", dbToClear).Trace("clearing pkgdb from cache")
-				filepathToRemove := repoDatabase.GetRepoDbCacheFilePath(rs.Version.ToFullString())
+				filepathToRemove := cran.CachedRepoDbPath(repo, cran.DefaultType(), cic.Repos[repo.Name], rs.Version)
 				_, err = fs.Stat(filepathToRemove)
 				if err != nil {
 					lastErr = err
diff --git a/cmd/plan.go b/cmd/plan.go
index 83490c7..125884f 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -80,6 +80,43 @@ func plan(cmd *cobra.Command, args []string) error {
 	return nil
 }
 
+// configuredRepos provides the repositories of a configuration and their customizations
+func configuredRepos(cfg configlib.PkgrConfig) ([]cran.RepoURL, *cran.InstallConfig) {
+	var repos []cran.RepoURL
+	for _, r := range cfg.Repos {
+		for nm, url := range r {
+			repo, _ := configlib.GetRepoCustomizationByName(nm, cfg.Customizations)
+			// for now no need to check if customization exists as the repo will have a default empty string
+			// regardless so no additional logic needed
+			repos = append(repos, cran.RepoURL{Name: nm, URL: url, Suffix: repo.RepoSuffix})
+		}
+	}
+	cic := cran.NewInstallConfig()
+	for _, repoSlice := range cfg.Customizations.Repos {
+		for rn, val := range repoSlice {
+			rc := cran.RepoConfig{}
+			if strings.EqualFold(val.RepoType, "MPN") {
+				rc.RepoType = cran.MPN
+				rc.DefaultSourceType = cran.Binary
+			}
+			if strings.EqualFold(val.RepoType, "RSPM") {
+				rc.RepoType = cran.RSPM
+			}
+			if strings.EqualFold(val.Type, "binary") {
+				rc.DefaultSourceType = cran.Binary
+			}
+			if strings.EqualFold(val.Type, "source") {
+				rc.DefaultSourceType = cran.Source
+			}
+			if val.RepoSuffix != "" {
+				rc.RepoSuffix = val.RepoSuffix
+			}
+			cic.Repos[rn] = rc
+		}
+	}
+	return repos, cic
+}
+
 func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.InstallPlan, rollback.RollbackPlan) {
 	startTime := time.Now()
 
@@ -123,39 +160,8 @@ func planInstall(rv cran.RVersion, exitOnMissing bool) (*cran.PkgNexus, gpsr.Ins
 		//fs.Chmod(cfg.Library, 0755)
 	}
 
-	var repos []cran.RepoURL
-	for _, r := range cfg.Repos {
-		for nm, url := range r {
-			repo, _ := configlib.GetRepoCustomizationByName(nm, cfg.Customizations)
-			// for now no need to check if customization exists as the repo will have a default empty string
-			// regardless so no additional logic needed
-			repos = append(repos, cran.RepoURL{Name: nm, URL: url, Suffix: repo.RepoSuffix})
-		}
-	}
+	repos, cic := configuredRepos(cfg)
 	st := cran.DefaultType()
-	cic := cran.NewInstallConfig()
-	for _, repoSlice := range cfg.Customizations.Repos {
-		for rn, val := range repoSlice {
-			rc := cran.RepoConfig{}
-			if strings.EqualFold(val.RepoType, "MPN") {
-				rc.RepoType = cran.MPN
-				rc.DefaultSourceType = cran.Binary
-			}
-			if strings.EqualFold(val.RepoType, "RSPM") {
-				rc.RepoType = cran.RSPM
-			}
-			if strings.EqualFold(val.Type, "binary") {
-				rc.DefaultSourceType = cran.Binary
-			}
-			if strings.EqualFold(val.Type, "source") {
-				rc.DefaultSourceType = cran.Source
-			}
-			if val.RepoSuffix != "" {
-				rc.RepoSuffix = val.RepoSuffix
-			}
-			cic.Repos[rn] = rc
-		}
-	}
 	pkgNexus, err := cran.NewPkgDb(repos, st, cic, rv, cfg.NoSecure)
 	if err != nil {
 		log.Panicln("error getting pkgdb ", err)
diff --git a/cran/repodb.go b/cran/repodb.go
index 41106b3..e17ab46 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -26,6 +26,16 @@ import (
 // This occasionally is needed for repos that have self signed or certs not fully verifiable
 // which will return errors such as x509: certificate signed by unknown authority
 func NewRepoDb(url RepoURL, dst SourceType, rc RepoConfig, rv RVersion, noSecure bool) (*RepoDb, error) {
+	repoDatabasePointer := emptyRepoDb(url, dst, rc)
+	return repoDatabasePointer, repoDatabasePointer.FetchPackages(rv, noSecure)
+}
+
+// CachedRepoDbPath provides the file the database of a repository is cached in, without reading the repository
+func CachedRepoDbPath(url RepoURL, dst SourceType, rc RepoConfig, rv RVersion) string {
+	return emptyRepoDb(url, dst, rc).GetRepoDbCacheFilePath(rv.ToFullString())
+}
+
+func emptyRepoDb(url RepoURL, dst SourceType, rc RepoConfig) *RepoDb {
 	repoDatabasePointer := &RepoDb{
 		DescriptionsBySourceType: make(map[SourceType]map[string]desc.Desc),
 		Time:                     time.Now(),
@@ -48,7 +58,7 @@ func NewRepoDb(url RepoURL, dst SourceType, rc RepoConfig, rv RVersion, noSecure
 
 	repoDatabasePointer.DescriptionsBySourceType[Source] = make(map[string]desc.Desc)
 
-	return repoDatabasePointer, repoDatabasePointer.FetchPackages(rv, noSecure)
+	return repoDatabasePointer
 }
 
 // Decode decodes the package database
-- 
2.43.0


From 6546da792e79ef3328b11bf3a12b98d9f46eb0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 36/46] fix: a package type that could not be read is an error,
 not a repository without such packages

---
 cran/repodb.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cran/repodb.go b/cran/repodb.go
index e17ab46..1196982 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -291,8 +291,10 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		if result.Err != nil {
 			log.Warnf("error downloading repo %s, type: %s, with information: %s\n", repoDb.Repo.Name, result.St, result.Err)
 			errorCount++
+			if complete {
+				lasterr = result.Err
+			}
 			complete = complete && result.Absent
-			lasterr = result.Err
 			// if one repo fails should return the error and not continue
 			// as don't want a partial repodb as it might cause improperly pulled packages
 		} else {
@@ -300,13 +302,10 @@ func (repoDb *RepoDb) FetchPackages(rVersion RVersion, noSecure bool) error {
 		}
 	}
 	// if only one source fails, this could be because it isn't present - eg if have binary/source but only source available
-	if errorCount == len(repoDb.DescriptionsBySourceType) {
+	// a type that could not be read must not be taken for one without packages
+	if errorCount == len(repoDb.DescriptionsBySourceType) || !complete {
 		return lasterr
 	}
-	// a type that could not be read must not be remembered as having no packages
-	if !complete {
-		return nil
-	}
 
 	return repoDb.Encode(pkgdbFile)
 }
-- 
2.43.0


From 432ea6420afda148b3bfe0c6fa9a0edeca1d6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 37/46] fix: packages built from source are kept apart from the
 repository's binaries in the cache

---
 rcmd/install.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rcmd/install.go b/rcmd/install.go
index f366d5d..02ddb92 100644
--- a/rcmd/install.go
+++ b/rcmd/install.go
@@ -237,6 +237,7 @@ func isInCache(
 		repoHash,
 		"binary",
 		ir.RSettings.Version.ToString(),
+		builtDir(meta.Metadata.Config.Type),
 		binaryName(pkg.Package, pkg.Version, ir.RSettings.Platform),
 	)
 	exists, err := goutils.Exists(fs, bpath)
@@ -256,6 +257,16 @@ func isInCache(
 	return true, ir
 }
 
+// builtDir names the directory, within that of the binaries for an R version, of the binaries
+// for packages of the given type: what was built from source is kept apart from the binaries
+// the repository provides, as either can be asked for
+func builtDir(st cran.SourceType) string {
+	if st == cran.Binary {
+		return ""
+	}
+	return "built"
+}
+
 // InstallThroughBinary installs in a two pass fashion
 // by first installing and generating a binary in
 // a tmp dir, then installs the binary to the desired
@@ -481,8 +492,10 @@ func InstallPackagePlan(
 					bpath := filepath.Join(
 						bdir,
 						rs.Version.ToString(),
+						builtDir(cran.Source),
 						filepath.Base(iu.BinaryPath),
 					)
+					os.MkdirAll(filepath.Dir(bpath), 0777)
 					// only a complete binary may appear under the name later runs look for
 					_, err := goutils.Copy(iu.BinaryPath, bpath+".part")
 					if err == nil {
-- 
2.43.0


From c512592c01cd49b7ed5c29eb55a64a052a72f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 38/46] fix: a tarball with hard links is refused instead of
 unpacked with empty files

---
 internal/archive/extract.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/archive/extract.go b/internal/archive/extract.go
index bc25c50..e54bfc8 100644
--- a/internal/archive/extract.go
+++ b/internal/archive/extract.go
@@ -21,7 +21,8 @@ import (
 // general-purpose extraction.
 //
 //   - Only regular files and directories are supported.  An error is returned if
-//     entries for any other mode are encountered, including a symbolic link.
+//     entries for any other mode are encountered, including a symbolic link, and
+//     for hard links, whose entries have no content of their own.
 //
 //     Supporting symbolic links is not necessary because, even if a package's
 //     source tree has a symbolic link, 'R CMD build' dereferences the link when
@@ -85,6 +86,9 @@ func extractFile(ctx context.Context, fi archives.FileInfo, root *os.Root) error
 	case mode.IsDir():
 		return os.MkdirAll(filename, 0o777)
 	case mode.IsRegular():
+		if fi.LinkTarget != "" {
+			return fmt.Errorf("unsupported link: %q to %q", fi.NameInArchive, fi.LinkTarget)
+		}
 		// Don't assume that an entry for each parent directory was already
 		// encountered or that an entry even exists (issue 259).
 		if err := os.MkdirAll(filepath.Dir(filename), 0o777); err != nil {
-- 
2.43.0


From 8fbebb0eda0ff22d16302a103930267a5c2011c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 39/46] fix: a package that is being removed never leaves a
 part of it in its place

---
 pacman/utils.go        |  6 ++++++
 rollback/operations.go | 49 +++++++++++++++++++++++++++++++++++++-----
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/pacman/utils.go b/pacman/utils.go
index eacaeab..ec34821 100644
--- a/pacman/utils.go
+++ b/pacman/utils.go
@@ -16,6 +16,9 @@ import (
 // BackupPrefix marks the directory a package is moved to while it is being updated.
 const BackupPrefix = "__OLD__"
 
+// RemovedPrefix marks the directory a package is moved to while it is being removed.
+const RemovedPrefix = "__REMOVED__"
+
 // GetPriorInstalledPackages ...
 func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[string]desc.Desc {
 	installed := make(map[string]desc.Desc)
@@ -31,6 +34,9 @@ func GetPriorInstalledPackages(fileSystem afero.Fs, libraryPath string) map[stri
 	installedPackageFolders := goutils.ListDirNames(fileInfo)
 
 	for _, pkgFolder := range installedPackageFolders {
+		if strings.HasPrefix(pkgFolder, RemovedPrefix) {
+			continue
+		}
 		// A backup left by an interrupted run only counts when it is all there is.
 		if active := strings.TrimPrefix(pkgFolder, BackupPrefix); active != pkgFolder {
 			if ok, _ := afero.DirExists(fileSystem, filepath.Join(libraryPath, active)); ok {
diff --git a/rollback/operations.go b/rollback/operations.go
index a7938bc..873df41 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -5,12 +5,45 @@ import (
 	"github.com/metrumresearchgroup/pkgr/pacman"
 	"github.com/sirupsen/logrus"
 	"github.com/spf13/afero"
+	"os"
 	"path/filepath"
 	"strings"
 )
 
+// removePackage removes the directory of a package or of its backup. It is moved away first: a run that is interrupted
+// must not leave a part of the package in its place, as that would be taken for the package.
+func removePackage(fileSystem afero.Fs, directory string) error {
+	exists, err := afero.Exists(fileSystem, directory)
+	if err != nil || !exists {
+		return err
+	}
+	removed := filepath.Join(filepath.Dir(directory), pacman.RemovedPrefix+filepath.Base(directory))
+	if err := fileSystem.RemoveAll(removed); err != nil {
+		return err
+	}
+	if err := fileSystem.Rename(directory, removed); err != nil {
+		return err
+	}
+	return fileSystem.RemoveAll(removed)
+}
+
+// removeLibrary removes a library, package by package.
+func removeLibrary(fileSystem afero.Fs, library string) error {
+	entries, err := afero.ReadDir(fileSystem, library)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	for _, entry := range entries {
+		if err := removePackage(fileSystem, filepath.Join(library, entry.Name())); err != nil {
+			return err
+		}
+	}
+	return fileSystem.RemoveAll(library)
+}
+
 // RecoverBackups settles the backup folders that an interrupted run left in the library: a package that is only
-// there as a backup is put back, and a backup of a package that is there is removed.
+// there as a backup is put back, and a backup of a package that is there is removed. Packages that were being removed
+// are removed.
 func RecoverBackups(fileSystem afero.Fs, library string) error {
 	if ok, _ := afero.DirExists(fileSystem, library); !ok {
 		return nil
@@ -20,6 +53,12 @@ func RecoverBackups(fileSystem afero.Fs, library string) error {
 		return err
 	}
 	for _, entry := range entries {
+		if strings.HasPrefix(entry.Name(), pacman.RemovedPrefix) {
+			if err := fileSystem.RemoveAll(filepath.Join(library, entry.Name())); err != nil {
+				return err
+			}
+			continue
+		}
 		pkg := strings.TrimPrefix(entry.Name(), pacman.BackupPrefix)
 		if !entry.IsDir() || pkg == entry.Name() || pkg == "" {
 			continue
@@ -47,7 +86,7 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	logrus.Trace("Resetting package environment")
 
 	if rbp.InstallPlan.CreateLibrary {
-		err0 := fileSystem.RemoveAll(rbp.Library)
+		err0 := removeLibrary(fileSystem, rbp.Library)
 
 		if err0 != nil {
 			logrus.WithFields(logrus.Fields{
@@ -61,7 +100,7 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	}
 
 	for _, pkg := range rbp.NewPackages {
-		err1 := fileSystem.RemoveAll(filepath.Join(rbp.Library, pkg))
+		err1 := removePackage(fileSystem, filepath.Join(rbp.Library, pkg))
 		if err1 != nil {
 			logrus.WithFields(logrus.Fields{
 				"library": rbp.Library,
@@ -102,7 +141,7 @@ func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateA
 		backupExists, _ := afero.Exists(fileSystem, info.BackupPackageDirectory)
 		//_, err1 := fileSystem.Stat(info.BackupPackageDirectory) // Checking existence
 		if backupExists {
-			err1 := fileSystem.RemoveAll(info.BackupPackageDirectory)
+			err1 := removePackage(fileSystem, info.BackupPackageDirectory)
 			if err1 != nil {
 				logrus.WithFields(logrus.Fields{
 					"package":           info.Package,
@@ -133,7 +172,7 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 
 		_, err1 := fileSystem.Stat(info.ActivePackageDirectory) // Checking existence
 		if err1 == nil {
-			err1 = fileSystem.RemoveAll(info.ActivePackageDirectory)
+			err1 = removePackage(fileSystem, info.ActivePackageDirectory)
 			if err1 != nil {
 				logrus.WithFields(logrus.Fields{
 					"package":           info.Package,
-- 
2.43.0


From edcc20e0e6dfc0b3c79af8445845fdea80861c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 40/46] fix: read requirements that exclude a version (!=)

---
 cran/repodb.go  | 2 ++
 desc/desc.go    | 3 +++
 desc/structs.go | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/cran/repodb.go b/cran/repodb.go
index 1196982..baccec9 100644
--- a/cran/repodb.go
+++ b/cran/repodb.go
@@ -341,6 +341,8 @@ func checkRVersionCompatibility(rVersion RVersion, pkgRConstraint desc.Dep) bool
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) <= 0
 	case desc.Equals:
 		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) == 0
+	case desc.NotEquals:
+		packageValid = desc.CompareVersions(installationVersion, pkgRConstraint.Version) != 0
 	case desc.None:
 		packageValid = true
 	default:
diff --git a/desc/desc.go b/desc/desc.go
index 7203ead..9bc31b4 100644
--- a/desc/desc.go
+++ b/desc/desc.go
@@ -25,6 +25,9 @@ func ParseDep(d string) Dep {
 		if strings.Contains(pv, "==") {
 			dep.Constraint = Equals
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "==", "", 1)))
+		} else if strings.Contains(pv, "!=") {
+			dep.Constraint = NotEquals
+			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, "!=", "", 1)))
 		} else if strings.Contains(pv, ">=") {
 			dep.Constraint = GTE
 			dep.Version = ParseVersion(strings.TrimSpace(strings.Replace(pv, ">=", " ", 1)))
diff --git a/desc/structs.go b/desc/structs.go
index 88272eb..a2b526a 100644
--- a/desc/structs.go
+++ b/desc/structs.go
@@ -15,6 +15,8 @@ func (c Constraint) ToString() string {
 		return "<="
 	case Equals:
 		return "=="
+	case NotEquals:
+		return "!="
 	default:
 		return "Unknown constraint"
 	}
@@ -29,6 +31,7 @@ const (
 	Equals
 	LTE
 	LT
+	NotEquals
 )
 
 // Version represents a package version
-- 
2.43.0


From 09ab5c4b4c96bdb87132e17ee7e88d7e7c453b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 41/46] fix: write the log of every command to the configured
 log file

---
 cmd/cleanCache.go | 3 +++
 cmd/cleanPkgdb.go | 3 +++
 cmd/load.go       | 1 +
 cmd/plan.go       | 2 ++
 cmd/run.go        | 2 ++
 5 files changed, 11 insertions(+)

diff --git a/cmd/cleanCache.go b/cmd/cleanCache.go
index 1c554dd..1761199 100644
--- a/cmd/cleanCache.go
+++ b/cmd/cleanCache.go
@@ -25,6 +25,8 @@ import (
 	"github.com/dpastoor/goutils"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
+
+	"github.com/metrumresearchgroup/pkgr/logger"
 )
 
 //var cleanAllFromCache bool
@@ -61,6 +63,7 @@ func init() {
 }
 
 func cache(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	cleanCacheFolders()
 	return nil
 }
diff --git a/cmd/cleanPkgdb.go b/cmd/cleanPkgdb.go
index 4832b84..2b5806b 100644
--- a/cmd/cleanPkgdb.go
+++ b/cmd/cleanPkgdb.go
@@ -23,6 +23,8 @@ import (
 	"github.com/metrumresearchgroup/pkgr/rcmd"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
+
+	"github.com/metrumresearchgroup/pkgr/logger"
 )
 
 var pkgdbsToClearArgument string
@@ -49,6 +51,7 @@ func init() {
 // Using a "middle man" function here allows us to call the cleanPackageDatabases function from the "clean"
 // command when "pkgr clean --all" is run. Without the middle man, passing in arguments becomes strange.
 func executeCommand(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	return cleanPackageDatabases(pkgdbsToClearArgument)
 }
 
diff --git a/cmd/load.go b/cmd/load.go
index c53f577..5d285b5 100644
--- a/cmd/load.go
+++ b/cmd/load.go
@@ -39,6 +39,7 @@ loaded from the expected library.`,
 	Run: func(cmd *cobra.Command, args []string) {
 		all := viper.GetBool("all")
 		json := viper.GetBool("json")
+		logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 
 		rs := rcmd.NewRSettings(cfg.RPath)
 
diff --git a/cmd/plan.go b/cmd/plan.go
index 125884f..26c8119 100644
--- a/cmd/plan.go
+++ b/cmd/plan.go
@@ -23,6 +23,7 @@ import (
 	"github.com/thoas/go-funk"
 
 	"github.com/metrumresearchgroup/pkgr/rollback"
+	"github.com/metrumresearchgroup/pkgr/logger"
 
 	"github.com/metrumresearchgroup/pkgr/desc"
 	"github.com/metrumresearchgroup/pkgr/pacman"
@@ -65,6 +66,7 @@ func init() {
 }
 
 func plan(cmd *cobra.Command, args []string) error {
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	log.Infof("Installation would launch %v workers\n", getWorkerCount(cfg.Threads, runtime.GOMAXPROCS(0)))
 	rs := rcmd.NewRSettings(cfg.RPath)
 	rVersion := rcmd.GetRVersion(&rs)
diff --git a/cmd/run.go b/cmd/run.go
index af34d99..7cb64cd 100644
--- a/cmd/run.go
+++ b/cmd/run.go
@@ -17,6 +17,7 @@ package cmd
 import (
 	"github.com/metrumresearchgroup/pkgr/configlib"
 	"github.com/metrumresearchgroup/pkgr/rcmd"
+	"github.com/metrumresearchgroup/pkgr/logger"
 
 	"github.com/spf13/cobra"
 )
@@ -53,6 +54,7 @@ configuration file.
 
 func rRun(cmd *cobra.Command, args []string) error {
 
+	logger.AddLogFile(cfg.Logging.All, cfg.Logging.Overwrite)
 	rs := rcmd.NewRSettings(cfg.RPath)
 	// installation through binary doesn't do this exactly, but its pretty close
 	// at least for experimentation for now. If necessary can refactor out the
-- 
2.43.0


From 20d538371127cb8a464573ae1b59b88ed04bd98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 42/46] fix: expand ~ in the config path before simplifying the
 path

---
 configlib/config.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index cd2fea4..2ac001d 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -182,7 +182,10 @@ func loadConfigFromPath(configFilename string) error {
 	if err != nil {
 		log.Fatalf("error binding env: %s\n", err)
 	}
-	configFilename, _ = homedir.Expand(filepath.Clean(configFilename))
+	if expanded, err := homedir.Expand(configFilename); err == nil {
+		configFilename = expanded
+	}
+	configFilename = filepath.Clean(configFilename)
 	// the working directory changes to the one of the config file later on
 	if abs, err := filepath.Abs(configFilename); err == nil {
 		configFilename = abs
-- 
2.43.0


From 1d47c24029f6c67dbccd5ea0e957bb00eab16da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 43/46] fix: find an R that is configured by a relative path
 from every directory

---
 configlib/config.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/configlib/config.go b/configlib/config.go
index 2ac001d..4d1a2d7 100644
--- a/configlib/config.go
+++ b/configlib/config.go
@@ -43,6 +43,8 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 		log.Fatalf("error parsing pkgr.yml: %s\n", err)
 	}
 
+	cfg.RPath = resolveRPath(cfg.RPath)
+
 	if len(cfg.Library) == 0 {
 		rs := rcmd.NewRSettings(cfg.RPath)
 		rVersion := rcmd.GetRVersion(&rs)
@@ -51,7 +53,6 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 
 	// For all cfg	values that can be repos, make sure that ~ is expanded to the home directory.
 	cfg.Library = expandTilde(cfg.Library)
-	cfg.RPath = expandTilde(cfg.RPath)
 	cfg.Tarballs = expandTildes(cfg.Tarballs)
 	cfg.Descriptions = expandTildes(cfg.Descriptions)
 	cfg.Repos = expandTildesRepos(cfg.Repos)
@@ -62,6 +63,17 @@ func NewConfig(cfgPath string, cfg *PkgrConfig) {
 	return
 }
 
+// resolveRPath returns the path of the R executable.  A command without any directory is left
+// alone, as it is looked up in PATH; any other relative path belongs to the config file's directory.
+// R is started from other directories, so that the path must not depend on the current one.
+func resolveRPath(rpath string) string {
+	rpath = expandTilde(rpath)
+	if filepath.Base(rpath) == rpath || filepath.IsAbs(rpath) {
+		return rpath
+	}
+	return filepath.Join(filepath.Dir(viper.ConfigFileUsed()), rpath)
+}
+
 /// expand the ~ at the beginning of a path to the home directory.
 /// consider any problems a fatal error.
 func expandTilde(p string) string {
-- 
2.43.0


From d8566d1309ff87f5f89edb5bee2f45c83ec6236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:21 +0000
Subject: [PATCH 44/46] fix: a rollback that fails for one package restores the
 others and keeps the backups

---
 cmd/install.go         |  7 ++++++-
 rollback/operations.go | 27 ++++++++++++++++++---------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index dd32827..4f4a708 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -148,18 +148,23 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	log.WithField("duration", time.Since(startTime)).Info("total package install time")
 
+	rolledBack := true
 	if !cfg.NoRollback {
 		// If anything went wrong during the installation, rollback the environment.
 		if err != nil || errInstallAdditional != nil {
 			errRollback := rollback.RollbackPackageEnvironment(fs, rollbackPlan)
 			if errRollback != nil {
 				log.WithFields(log.Fields{}).Error("failed to reset package environment after bad installation. Your package Library will be in a corrupt state. It is recommended you delete your Library and reinstall all packages.")
+				rolledBack = false
 			}
 		}
 	}
 	// If any packages were being updated, we need to remove any leftover backup folders that were created.
 	// Errors are handled in the lower functions
-	_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	// They are all that is left of a package that could not be restored.
+	if rolledBack {
+		_ = rollbackPlan.DeleteBackupPackageFolders(fs)
+	}
 
 	log.Info("duration:", time.Since(startTime))
 
diff --git a/rollback/operations.go b/rollback/operations.go
index 873df41..90c5329 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -99,6 +99,8 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 		return nil
 	}
 
+	// What cannot be undone for one package must not keep the others from being restored.
+	var firstErr error
 	for _, pkg := range rbp.NewPackages {
 		err1 := removePackage(fileSystem, filepath.Join(rbp.Library, pkg))
 		if err1 != nil {
@@ -106,7 +108,9 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 				"library": rbp.Library,
 				"package": pkg,
 			}).Warn("failed to remove package during rollback", err1)
-			return err1
+			if firstErr == nil {
+				firstErr = err1
+			}
 		}
 	}
 
@@ -114,20 +118,20 @@ func RollbackPackageEnvironment(fileSystem afero.Fs, rbp RollbackPlan) error {
 	//restored from backups.
 	if len(rbp.UpdateRollbacks) > 0 {
 		err2 := rollbackChangedPackages(fileSystem, rbp.UpdateRollbacks)
-		if err2 != nil {
-			return err2
+		if err2 != nil && firstErr == nil {
+			firstErr = err2
 		}
 	}
 
 	//Rollback additional packages -- same process as updated packages, but we hold them in a separate object.
 	if len(rbp.AdditionalPkgRollbacks) > 0 {
 		err3 := rollbackChangedPackages(fileSystem, rbp.AdditionalPkgRollbacks)
-		if err3 != nil {
-			return err3
+		if err3 != nil && firstErr == nil {
+			firstErr = err3
 		}
 	}
 
-	return nil
+	return firstErr
 }
 
 func DeleteBackupPackageFolders(fileSystem afero.Fs, packageBackupInfo []UpdateAttempt) error {
@@ -162,6 +166,7 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 		return nil
 	}
 
+	var firstErr error
 	for _, info := range packageBackupInfo {
 
 		logrus.WithFields(logrus.Fields{
@@ -178,7 +183,9 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 					"package":           info.Package,
 					"problem_directory": info.ActivePackageDirectory,
 				}).Warn("could not delete directory during package rollback")
-				return err1
+				if firstErr == nil {
+					firstErr = err1
+				}
 			}
 		}
 
@@ -188,12 +195,14 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 			logrus.WithFields(logrus.Fields{
 				"pkg": info.Package,
 			}).Warn("could not rollback package -- package will need reinstallation.")
-			return err2
+			if firstErr == nil {
+				firstErr = err2
+			}
 		}
 
 	}
 
-	return nil
+	return firstErr
 }
 
 // createUpdateBackupFolders ...
-- 
2.43.0


From fdcaf987066390c45589b23eac9c66b8c93000f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:28 +0000
Subject: [PATCH 45/46] fix: stop, with the library as it was, when a package
 cannot be backed up

---
 cmd/install.go         | 13 +++++++++++--
 rollback/operations.go | 18 +++++++++++++-----
 rollback/types.go      | 14 ++++++++++----
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/cmd/install.go b/cmd/install.go
index 4f4a708..045eab1 100644
--- a/cmd/install.go
+++ b/cmd/install.go
@@ -109,9 +109,18 @@ func rInstall(cmd *cobra.Command, args []string) error {
 
 	if !cfg.NoUpdate { // } && cfg.Rollback { We actually need this to run either way, as the "prepare packages for update" operation moves the current installations to __OLD__ folders, thus allowing updated versions to be installed.
 		log.Info("update argument passed. staging packages for update...")
-		rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
+		err = rollbackPlan.PreparePackagesForUpdate(fs, cfg.Library)
+	}
+	if err == nil {
+		err = rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
+	}
+	if err != nil {
+		_ = rollback.RollbackPackageEnvironment(fs, rollbackPlan)
+		log.WithFields(log.Fields{
+			"library": cfg.Library,
+			"error":   err,
+		}).Fatal("could not back up the packages that are to be replaced")
 	}
-	rollbackPlan.PrepareAdditionalPackagesForOverwrite(fs, cfg.Library)
 
 	// Set the arguments to be passed in to the R Package Installer
 	pkgInstallArgs := rcmd.NewDefaultInstallArgs()
diff --git a/rollback/operations.go b/rollback/operations.go
index 90c5329..1aa3cb9 100644
--- a/rollback/operations.go
+++ b/rollback/operations.go
@@ -206,18 +206,22 @@ func rollbackChangedPackages(fileSystem afero.Fs, packageBackupInfo []UpdateAtte
 }
 
 // createUpdateBackupFolders ...
-func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdatedPackages []cran.OutdatedPackage) []UpdateAttempt {
+func createUpdateBackupFolders(fileSystem afero.Fs, libraryPath string, outdatedPackages []cran.OutdatedPackage) ([]UpdateAttempt, error) {
 	var updateAttempts []UpdateAttempt
 
 	//Tag each outdated pkg directory in library with "__OLD__"
 	for _, pkg := range outdatedPackages {
-		updateAttempts = append(updateAttempts, tagOldInstallation(fileSystem, libraryPath, pkg))
+		updateAttempt, err := tagOldInstallation(fileSystem, libraryPath, pkg)
+		if err != nil {
+			return updateAttempts, err
+		}
+		updateAttempts = append(updateAttempts, updateAttempt)
 	}
 
-	return updateAttempts
+	return updateAttempts, nil
 }
 
-func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) UpdateAttempt {
+func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage cran.OutdatedPackage) (UpdateAttempt, error) {
 	packageDir := filepath.Join(libraryPath, outdatedPackage.Package)
 	taggedPackageDir := filepath.Join(libraryPath, "__OLD__"+outdatedPackage.Package)
 
@@ -227,6 +231,10 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 	if err != nil {
 		logrus.WithField("package dir", packageDir).Warn("error when backing up outdated package")
 		logrus.Error(err)
+		// without a backup, the package must not be touched
+		if !os.IsNotExist(err) {
+			return UpdateAttempt{}, err
+		}
 	}
 
 	return UpdateAttempt{
@@ -235,5 +243,5 @@ func tagOldInstallation(fileSystem afero.Fs, libraryPath string, outdatedPackage
 		BackupPackageDirectory: taggedPackageDir,
 		OldVersion:             outdatedPackage.OldVersion,
 		NewVersion:             outdatedPackage.NewVersion,
-	}
+	}, nil
 }
diff --git a/rollback/types.go b/rollback/types.go
index b2af2a7..07a3177 100644
--- a/rollback/types.go
+++ b/rollback/types.go
@@ -36,7 +36,7 @@ func CreateRollbackPlan(library string, installPlan gpsr.InstallPlan, preinstall
 }
 
 // createUpdateBackupFolders backs up outdated packages in the library by renaming them, thus making space for the updated versions to install.
-func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) {
+func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) error {
 
 	//InstallPlan is aware of _all_ preinstalled packages, even if they're not in pkgr.yml. We don't want to touch
 	//preinstalled packages that weren't in pkgr.yml, so we just want to take the active packages from the install plan.
@@ -49,11 +49,12 @@ func (rp *RollbackPlan) PreparePackagesForUpdate(fs afero.Fs, library string) {
 	}
 
 	// Wrap this function for now until we're ready to move it over.
-	updateAttempts := createUpdateBackupFolders(fs, library, opFiltered)
+	updateAttempts, err := createUpdateBackupFolders(fs, library, opFiltered)
 	rp.UpdateRollbacks = updateAttempts
+	return err
 }
 
-func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) {
+func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, library string) error {
 	var overwriteAttempts []UpdateAttempt
 	alreadyStaged := make(map[string]bool)
 	for _, update := range rp.UpdateRollbacks {
@@ -63,15 +64,20 @@ func (rp *RollbackPlan) PrepareAdditionalPackagesForOverwrite(fs afero.Fs, libra
 		preinstPkg, isPreinstalled := rp.PreinstalledPackages[pkg]
 		// a package staged for update has been backed up already
 		if isPreinstalled && !alreadyStaged[pkg] {
-			overwriteAttempt := tagOldInstallation(fs, library, cran.OutdatedPackage{
+			overwriteAttempt, err := tagOldInstallation(fs, library, cran.OutdatedPackage{
 				Package:    pkg,
 				OldVersion: preinstPkg.Version,
 				NewVersion: "[from tarball]",
 			})
+			if err != nil {
+				rp.AdditionalPkgRollbacks = overwriteAttempts
+				return err
+			}
 			overwriteAttempts = append(overwriteAttempts, overwriteAttempt)
 		}
 	}
 	rp.AdditionalPkgRollbacks = overwriteAttempts
+	return nil
 }
 
 func (rp *RollbackPlan) DeleteBackupPackageFolders(fs afero.Fs) []error {
-- 
2.43.0


From 4f5caa21df225105e49d7db762250666f29d0faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 46/46] fix: add and remove replace the configuration file in
 one step

---
 configlib/add_package.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/configlib/add_package.go b/configlib/add_package.go
index 6138281..a4f4d4b 100644
--- a/configlib/add_package.go
+++ b/configlib/add_package.go
@@ -3,6 +3,7 @@ package configlib
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"strings"
 
 	log "github.com/sirupsen/logrus"
@@ -53,7 +54,44 @@ func writePackages(fs afero.Fs, ymlfile string, yml string, expected []string) e
 	if err != nil {
 		return err
 	}
-	return afero.WriteFile(fs, ymlfile, []byte(yml), fi.Mode())
+	return replaceFile(fs, ymlfile, []byte(yml), fi.Mode())
+}
+
+// replaceFile changes the content of a file in one step, so that neither an interruption nor a full disk leaves a part
+// of the new content, or none.
+func replaceFile(fs afero.Fs, file string, content []byte, mode os.FileMode) error {
+	// a link keeps pointing to the file
+	target, err := filepath.EvalSymlinks(file)
+	if err != nil {
+		return err
+	}
+	writable, err := fs.OpenFile(target, os.O_WRONLY, 0)
+	if err != nil {
+		return err
+	}
+	writable.Close()
+	tmp, err := afero.TempFile(fs, filepath.Dir(target), "."+filepath.Base(target)+".")
+	if os.IsPermission(err) {
+		// the directory is not to be changed
+		return afero.WriteFile(fs, target, content, mode)
+	}
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(content)
+	if errClose := tmp.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = fs.Chmod(tmp.Name(), mode)
+	}
+	if err == nil {
+		err = fs.Rename(tmp.Name(), target)
+	}
+	if err != nil {
+		fs.Remove(tmp.Name())
+	}
+	return err
 }
 
 // findPackages returns the top-level mapping of the config file and the key and the value of its Packages section,
-- 
2.43.0

