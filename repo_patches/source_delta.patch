From 64d4625e869437eaf3a78e76a45efedf518f8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 01/44] fix: remove every occurrence of an entry from list
 variables

---
 ipkg/environments.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index d72abc8..cd6b1f0 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -97,9 +97,7 @@ class ListVariable(Variable):
             raise InvalidVariableValue(self.name, value)
 
     def remove(self, item):
-        if item in self.__list:
-            item_index = self.__list.index(item)
-            self.__list.pop(item_index)
+        self.__list = [i for i in self.__list if i != item]
 
     def insert(self, item, index=0):
         self.remove(item)
-- 
2.43.0


From 9bbc8bd3f119c642f81f182e3d835ebb895e9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 02/44] fix: an empty list variable has no entries

---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index cd6b1f0..1243bef 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -89,7 +89,8 @@ class ListVariable(Variable):
     LIST_SEPARATOR = None
 
     def set(self, value):
-        if value is None:
+        if value is None or value == '':
+            # an empty variable has no entry, not an empty one
             self.__list = []
         elif isinstance(value, basestring):
             self.__list = value.split(self.LIST_SEPARATOR)
-- 
2.43.0


From b0304e6124ceb06310b90b0d00c024651c318c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 03/44] fix: keep package variables that are not valid
 templates

---
 ipkg/environments.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 1243bef..9f5a3ba 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -1,5 +1,6 @@
 import sys
 import os
+import re
 import logging
 import shutil
 import tempfile
@@ -14,6 +15,7 @@ from .platforms import Platform
 
 
 LOGGER = logging.getLogger(__name__)
+TEMPLATE = re.compile(r'%%|%\([^()]*\)s')
 
 
 class UnknownEnvironment(IpkgException):
@@ -229,11 +231,14 @@ class EnvironmentVariables(dict):
             variables = {name: value}
 
         for var_name, var_value in variables.items():
-            try:
-                var_value = var_value % self.__directories
-            except KeyError:
-                # invalid format string ?
-                pass
+            # Only %(name)s and %% make sense in a template: a text with any
+            # other % is not one
+            if '%' not in TEMPLATE.sub('', var_value):
+                try:
+                    var_value = var_value % self.__directories
+                except KeyError:
+                    # unknown directory
+                    pass
 
             LOGGER.debug('Adding variable %s=%s', var_name, var_value)
             self[var_name] = Variable(var_name, var_value)
-- 
2.43.0


From 0776c7867448be546e7edbc2b7f2c67e53568b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 04/44] fix: clear a DictFile which was never saved

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index c1ab436..cdb9e2b 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -76,7 +76,7 @@ class DictFile(dict):
         """
         if os.path.isfile(self.__file_path):
             os.unlink(self.__file_path)
-            super(DictFile, self).clear()
+        super(DictFile, self).clear()
 
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
-- 
2.43.0


From 638f5f456894e5608abbaa66d1aff3801faf514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 05/44] fix: refuse JSON data which is not an object in a
 DictFile

---
 ipkg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index cdb9e2b..eaaca47 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -68,8 +68,9 @@ class DictFile(dict):
                     data = json.loads(raw)
                 except ValueError:
                     raise InvalidDictFileContent(self.__file_path)
-                else:
-                    self.update(data)
+                if not isinstance(data, dict):
+                    raise InvalidDictFileContent(self.__file_path)
+                self.update(data)
 
     def clear(self):
         """Force the dictionary to be empty.
-- 
2.43.0


From fca895374c30198623834f2557878ba5ba0c88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 06/44] fix: never leave a partially written DictFile

---
 ipkg/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index eaaca47..6480674 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -82,8 +82,11 @@ class DictFile(dict):
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
         # This will break if trying to call save() on a remote DictFile
-        with open(self.__file_path, 'w') as f:
+        # The previous content is only replaced by a complete new one
+        tmp_path = self.__file_path + '.tmp'
+        with open(tmp_path, 'w') as f:
             json.dump(self, f, indent=4)
+        os.rename(tmp_path, self.__file_path)
 
 
 def execute(command,
-- 
2.43.0


From 72d814298084dfb210c0c2ca34162d3abb7e902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 07/44] fix: keep the repository meta data file until it is
 replaced

---
 ipkg/repositories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index a0c3017..327f8c4 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -94,7 +94,9 @@ class LocalPackageRepository(PackageRepository):
         """Update the repository meta data file."""
         LOGGER.info('Updating metadata of %r', self)
         meta = self.meta
-        meta.clear()
+        # Only forget what we know: the file is replaced when it is saved
+        for name in list(meta):
+            del meta[name]
         names = os.listdir(self.base)
 
         for name in names:
-- 
2.43.0


From e5bbd0f138cb5325318785f94036d3aa413eec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 08/44] fix: uninstall the other version by name when
 installing a package

---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 9f5a3ba..fda4646 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -357,7 +357,7 @@ class Environment(object):
                     # Different version/revision, uninstall it
                     LOGGER.debug('Another version of %r is installed, '
                                  'uninstalling it first' % package)
-                    self.uninstall(package)
+                    self.uninstall(package.name)
                 break
 
         # Install dependencies
-- 
2.43.0


From acc512093304f0ba1d10b82324f53c0524b030a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 09/44] fix: keep the != selectors of a requirement

---
 ipkg/requirements.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 5c871b7..ad693ad 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -294,4 +294,11 @@ def remove_useless_version_selectors(version_selectors):
     if l_selector:
         result.append(l_selector)
 
+    # Only keep the excluded versions other selectors do not exclude
+    for version in sorted(selectors[operator.ne]):
+        if eq_ver == version:
+            raise ExclusiveVersionRequirements(operator.ne, version)
+        elif all(op(version, v) for op, v in result):
+            result.append((operator.ne, version))
+
     return result
-- 
2.43.0


From fe146213d18fc0d58f8097d87634c6db1e874ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 10/44] fix: refuse malformed requirements with
 InvalidRequirement

---
 ipkg/requirements.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index ad693ad..96ed945 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -57,7 +57,7 @@ class Requirement(object):
         elif isinstance(other, basestring):
             try:
                 requirement = Requirement(other)
-            except InvalidRequirement:
+            except (InvalidRequirement, InvalidPlatform):
                 return False
             else:
                 return str(self) == str(requirement)
@@ -141,7 +141,7 @@ RE_REQUIREMENT = re.compile("""
     \]
 )?
 \s*
-(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)*
+(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)?
 \s*
 $
 """, re.X)
@@ -168,13 +168,10 @@ def parse_version(version_string):
     match = RE_VERSION_REQUIREMENT.match(version_string)
 
     if not match:
-        raise InvalidRequirementVersion(version_string)
+        raise InvalidRequirement(version_string)
 
     version_dict = match.groupdict()
 
-    if version_dict['operator'] not in OPERATORS:
-        raise InvalidRequirementVersionOperator(version_dict['operator'])
-
     return OPERATORS[version_dict['operator']], \
         pkgres.parse_version(version_dict['version'])
 
-- 
2.43.0


From c6ae5db1f0d32b8908b8a4236cd050cf9870abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 11/44] fix: make the text form of a requirement spell the same
 requirement

---
 ipkg/requirements.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 96ed945..a658ed7 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -64,6 +64,9 @@ class Requirement(object):
         else:
             return False
 
+    def __ne__(self, other):
+        return not (self == other)
+
     def __make_extras_str(self, extras):
         return '[' + ','.join(extras) + ']' if extras else ''
 
@@ -71,17 +74,8 @@ class Requirement(object):
         operators = dict((op, s) for s, op in OPERATORS.items())
         versions_str = []
         for version_operator, version_tuple in versions:
-            version_parts = []
-            for version_part in version_tuple:
-                if version_part == '*final':
-                    break
-                elif version_part[0] == '*':
-                    version_parts.append(version_part[1:])
-                else:
-                    version_parts.append(str(int(version_part)))
             operator = operators[version_operator]
-            version = '.'.join(version_parts)
-            versions_str.append(operator + version)
+            versions_str.append(operator + unparse_version(version_tuple))
         return ','.join(versions_str)
 
     def __str__(self):
@@ -176,6 +170,26 @@ def parse_version(version_string):
         pkgres.parse_version(version_dict['version'])
 
 
+def unparse_version(version):
+    """Returns a version string whose parsed form is ``version``.
+    """
+    parts = []
+    previous = None
+    for part in version[:-1]:  # the last one always is *final
+        if part[0] != '*':
+            # numbers are padded to 8 digits
+            parts.append(part if len(part) > 8 else part.lstrip('0') or '0')
+        elif part == '*final-':
+            parts.append('-')
+        else:
+            if previous == '*final-' and part < '*final':
+                # the dash would be ignored right before a pre-release tag
+                parts.append('0')
+            parts.append('dev' if part == '*@' else part[1:])
+        previous = part
+    return '.'.join(parts) or '0'
+
+
 def parse(requirement):
     requirement_match = RE_REQUIREMENT.match(requirement)
 
@@ -194,7 +208,9 @@ def parse(requirement):
                                                              version_strings))
 
     if requirement_dict['extras']:
-        extras = re.split(r'\s*,\s*', requirement_dict['extras'].strip())
+        extras = [extra for extra in
+                  re.split(r'\s*,\s*', requirement_dict['extras'].strip())
+                  if extra]
     else:
         extras = []
 
-- 
2.43.0


From 5c08aec114ea401e30652f3a4aa9a8425897c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 12/44] fix: merge the platforms of merged requirements

---
 ipkg/requirements.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index a658ed7..7c877d0 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -95,11 +95,21 @@ class Requirement(object):
             raise InvalidRequirement(other)
         if self.platform != other.platform:
             raise InvalidPlatform(other.platform)
-        extras_str = self.__make_extras_str(set(self.extras + other.extras))
-        versions_str = self.__make_versions_str(
-            set(self.versions + other.versions))
-        return Requirement('%s:%s%s%s' % (self.platform, self.name,
-                                          extras_str, versions_str))
+        extras = list(self.extras)
+        for extra in other.extras:
+            if extra not in extras:
+                extras.append(extra)
+        extras_str = self.__make_extras_str(extras)
+        versions_str = self.__make_versions_str(self.versions + other.versions)
+        requirement = Requirement('any:%s%s%s' % (self.name, extras_str,
+                                                  versions_str))
+        # Anything one of the platforms does not specify, the other one does
+        requirement.platform = Platform(
+            *[b if a == 'any' else a for a, b in
+              ((self.platform.os_name, other.platform.os_name),
+               (self.platform.os_release, other.platform.os_release),
+               (self.platform.architecture, other.platform.architecture))])
+        return requirement
 
     def satisfied_by_version(self, version):
         if isinstance(version, basestring):
-- 
2.43.0


From b38d1aaa221e26f0eba582acd6f1d8be47eadb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 13/44] fix: honour the parser given to most_recent

---
 ipkg/versions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/versions.py b/ipkg/versions.py
index 9b352fa..64a4d9f 100644
--- a/ipkg/versions.py
+++ b/ipkg/versions.py
@@ -44,4 +44,4 @@ def most_recent(versions, parser=parse):
     * ``versions`` must be an iterable of versions.
     * ``parser`` defaults to ``parse`` which parses version strings.
     """
-    return sorted(versions, reverse=True)[0]
+    return sorted(versions, parser, reverse=True)[0]
-- 
2.43.0


From ef4631ee6f03989f4421474c71ca39f98b0be260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 14/44] fix: compare platforms with None and other objects

---
 ipkg/platforms.py    | 3 +++
 ipkg/requirements.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipkg/platforms.py b/ipkg/platforms.py
index 0794983..061ef0c 100644
--- a/ipkg/platforms.py
+++ b/ipkg/platforms.py
@@ -31,6 +31,9 @@ class Platform(object):
             except InvalidPlatform:
                 return False
 
+        elif not isinstance(platform, Platform):
+            return False
+
         return (('any' in (self.os_name, platform.os_name) or
                  self.os_name == platform.os_name) and
                 ('any' in (self.os_release, platform.os_release) or
diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 7c877d0..91c6b61 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -122,11 +122,12 @@ class Requirement(object):
         ``obj`` should be a ``Formula`` or a ``Package`` object.
         """
         if isinstance(obj, dict):
-            return obj.get('platform', 'any') == self.platform and \
+            return (obj.get('platform') or 'any') == self.platform and \
                 obj.get('name') == self.name and \
                 self.satisfied_by_version(obj.get('version'))
         else:
             return (not hasattr(obj, 'platform') or
+                    obj.platform is None or
                     obj.platform == self.platform) and \
                 hasattr(obj, 'name') and \
                 obj.name == self.name and \
-- 
2.43.0


From 4df1960f9b5023f8644a27324b1119c2b7a0c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 15/44] fix: do not list files which are not packages in a
 repository

---
 ipkg/packages.py     | 19 +++++++++++++++++--
 ipkg/repositories.py |  5 ++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index d7923ba..2b61dbe 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -4,7 +4,7 @@ import tarfile
 import logging
 
 from .files import vopen
-from .exceptions import IpkgException
+from .exceptions import IpkgException, InvalidPackage
 from .mixins import NameVersionRevisionComparable
 
 
@@ -57,9 +57,24 @@ class PackageFile(MetaPackage):
     @property
     def meta(self):
         if not self.__meta:
-            self.__meta = json.load(self._tarfile.extractfile(META_FILE))
+            self.__meta = self.__load_meta()
         return self.__meta
 
+    def __load_meta(self):
+        try:
+            meta_file = self._tarfile.extractfile(META_FILE)
+            meta = json.load(meta_file) if meta_file else None
+        except (tarfile.TarError, KeyError, ValueError, EOFError):
+            raise InvalidPackage(self.path)
+        except IOError as err:
+            # corrupted data, or an error of the system
+            if err.errno is None:
+                raise InvalidPackage(self.path)
+            raise
+        if not isinstance(meta, dict):
+            raise InvalidPackage(self.path)
+        return meta
+
     @property
     def _tarfile(self):
         if self.__tarfile is None:
diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 327f8c4..7f56f2e 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -119,7 +119,10 @@ class LocalPackageRepository(PackageRepository):
                     #             filepath)
                     continue
 
-                self.add(filepath)
+                try:
+                    self.add(filepath)
+                except IpkgException as err:
+                    LOGGER.warning('Ignoring %s: %s', filepath, err)
 
         if not names or not meta.keys():
             LOGGER.warning('No package found')
-- 
2.43.0


From a681d9bd0e20ac787f31d05d5e0113b653ac3a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 16/44] fix: replace the entry of a package added again to a
 repository

---
 ipkg/repositories.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 7f56f2e..672d480 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -212,13 +212,13 @@ class LocalPackageRepository(PackageRepository):
         if not isinstance(package, PackageFile):
             raise InvalidPackage(package)
 
-        meta = self.meta
-
-        if package.name not in meta:
-            meta[package.name] = []
-
         package_meta = dict(package.meta)
 
+        try:
+            filename = make_filename(**package_meta)
+        except KeyError:
+            raise InvalidPackage(package.path)
+
         if compute_checksum:
             hashobj = hashlib.sha256()
             with open(package.path) as fileobj:
@@ -227,7 +227,11 @@ class LocalPackageRepository(PackageRepository):
             LOGGER.debug('sha256: %s', checksum)
             package_meta['checksum'] = checksum
 
-        meta[package.name].append(package_meta)
+        # The package replaces the one which had the same file
+        entries = [entry for entry in self.meta.get(package.name, [])
+                   if make_filename(**entry) != filename]
+        entries.append(package_meta)
+        self.meta[package.name] = entries
 
         LOGGER.info('Package %s added to repository', package)
 
-- 
2.43.0


From 13cc9ef828a239900337a85c2aacf73b86776672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 17/44] fix: order formula builds by requirements and stop on
 dependency loops

---
 ipkg/repositories.py | 62 +++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 672d480..40e0099 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -156,47 +156,57 @@ class LocalPackageRepository(PackageRepository):
                 formulas.append(formula_cls(environment, verbose))
         LOGGER.debug('Formulas: %r', formulas)
 
+        delayed = 0  # formulas delayed since the last build
+
         while formulas:
-            build_later = False
             formula = formulas.pop(0)
 
-            for dependency in formula.dependencies:
+            # Dependencies which will be built later
+            waiting = [dependency for dependency in formula.dependencies
+                       if self.__is_satisfied(dependency, formulas)]
+
+            # When all the remaining formulas wait for each other,
+            # there is nothing to expect from another delay.
+            if waiting and delayed < len(formulas):
+                LOGGER.debug('Delaying build of %s because it requires '
+                             '%s which will be built later' %
+                             (formula, ', '.join(waiting)))
+                formulas.append(formula)
+                delayed += 1
+                continue
 
-                if dependency in formulas:
-                    formulas.append(formula)
-                    build_later = True
-                    LOGGER.debug('Delaying build of %s because it requires '
-                                 '%s which will be built later' %
-                                 (formula, dependency))
-                    break
+            delayed = 0
 
+            for dependency in formula.dependencies:
                 # If the dependency is installed in the environment or present
                 # in this repository, it is satisfied.
-                if ((environment is not None and
-                     dependency in environment.packages)
-                        or dependency in repo_packages
-                        or dependency in built_packages):
-                    continue
-
-                else:
+                if not ((environment is not None and
+                         self.__is_satisfied(dependency,
+                                             environment.packages))
+                        or self.__is_satisfied(dependency, self)):
                     LOGGER.error('Cannot build %s: Missing dependency: %s' %
                                  (formula, dependency))
-                    break
-
-            if not build_later:
 
-                try:
-                    package_file = self.build_formula(formula)
+            try:
+                package_file = self.build_formula(formula)
 
-                except IpkgException as err:
-                    LOGGER.exception('Failed to build %s: %s' %
-                                     (make_package_spec(formula), str(err)))
+            except Exception as err:
+                LOGGER.exception('Failed to build %s: %s' %
+                                 (make_package_spec(formula), str(err)))
 
-                else:
-                    built_packages.append(package_file)
+            else:
+                built_packages.append(package_file)
 
         return built_packages
 
+    def __is_satisfied(self, dependency, objects):
+        try:
+            requirement = Requirement(dependency)
+        except IpkgException:
+            # The build will fail
+            return False
+        return any(requirement.satisfied_by(obj) for obj in objects)
+
     def add(self, package, compute_checksum=True):
         """Add a package to the repository.
 
-- 
2.43.0


From 1412c75609c62fd15b6d59b8fa1231b9cc701c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 18/44] fix: never touch files outside of the prefix when
 installing a package

---
 ipkg/environments.py | 13 ++++++----
 ipkg/packages.py     | 56 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 5 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index fda4646..09e34d1 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -6,7 +6,7 @@ import shutil
 import tempfile
 
 from .exceptions import IpkgException
-from .packages import MetaPackage, PackageFile
+from .packages import MetaPackage, PackageFile, is_inside
 from .prefix_rewriters import rewrite_prefix
 from .utils import DictFile, execute, make_package_spec, mkdir
 from .compat import basestring
@@ -304,11 +304,15 @@ class Environment(object):
 
         for rel_path in self.meta['packages'][package]['files']:
             path = os.path.join(self.prefix, rel_path)
+            parent, name = os.path.split(path)
 
-            if os.path.isfile(path) or os.path.islink(path):
+            if not is_inside(self.prefix, os.path.join(
+                    os.path.realpath(parent), name), follow=False):
+                LOGGER.warning('Ignoring %s: not in the environment', path)
+            elif os.path.islink(path) or \
+                    os.path.exists(path) and not os.path.isdir(path):
                 #LOGGER.debug('Removing file %s', path)
                 os.unlink(path)
-                parent = os.path.dirname(path)
                 if not os.listdir(parent):
                     #LOGGER.debug('Parent directory %s is empty, removing it',
                     #             parent)
@@ -379,7 +383,8 @@ class Environment(object):
                 file_dir, file_name = os.path.split(pkg_file)
                 if file_dir in ('bin', 'sbin') or file_dir.startswith('lib'):
                     file_path = os.path.join(self.prefix, pkg_file)
-                    if isfile(file_path) and not islink(file_path):
+                    if isfile(file_path) and not islink(file_path) and \
+                            is_inside(self.prefix, file_path):
                         rewrite_prefix(pkg_file, build_prefix, self.prefix)
 
         # Write package meta data in environment
diff --git a/ipkg/packages.py b/ipkg/packages.py
index 2b61dbe..062d52f 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -86,7 +86,61 @@ class PackageFile(MetaPackage):
         """
         LOGGER.debug('Extracting %s in %s', self, path)
         files = [m for m in self._tarfile.getmembers() if m.path != META_FILE]
-        self._tarfile.extractall(path, files)
+        for name in self.files:
+            check_path(self, name)
+        for member in files:
+            check_path(self, member.path)
+            if member.islnk():
+                check_path(self, member.linkname)
+        self._tarfile.extractall(path, self.__prepare(path, files))
+
+    def __prepare(self, path, members):
+        """Make sure that each of ``members`` can be extracted to ``path``,
+           right before it is: it could be reached using a link which has just
+           been extracted.
+        """
+        for member in members:
+            target = os.path.join(path, member.path)
+            if member.isdir():
+                inside = is_inside(path, target)
+            else:
+                parent, name = os.path.split(target)
+                inside = is_inside(path, os.path.join(
+                    os.path.realpath(parent), name), follow=False)
+            if inside and member.islnk():
+                source = os.path.join(path, member.linkname)
+                inside = is_inside(path, source) and \
+                    not os.path.islink(source)
+            if not inside:
+                raise InvalidPackage(self.path)
+            if not member.isdir():
+                if os.path.islink(target) or \
+                        os.path.exists(target) and not os.path.isdir(target):
+                    # Do not write through links, replace them. This also
+                    # makes possible to extract the package again.
+                    os.unlink(target)
+            yield member
+
+
+def check_path(package, path):
+    """Check that ``path`` can be the path of a file of ``package``: relative
+       to the prefix, and not the path of the environment meta data.
+    """
+    parts = [part for part in path.split('/') if part not in ('', '.')]
+    if os.path.isabs(path) or '..' in parts or \
+            parts and parts[0].startswith(META_FILE):
+        raise InvalidPackage(package.path)
+
+
+def is_inside(root, path, follow=True):
+    """Check that ``path`` is in the directory ``root``, once links are
+       followed, and is not the environment meta data.
+    """
+    root = os.path.realpath(root)
+    prefix = os.path.join(root, '')
+    real = os.path.realpath(path) if follow else path
+    return real == root or real.startswith(prefix) and \
+        not real.startswith(prefix + META_FILE)
 
 
 def make_filename(**meta):
-- 
2.43.0


From 7030e0e9cd5be7b4f76e9b810fe8abc9a611f7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 19/44] fix: install the dependencies a package requires,
 refuse loops

---
 ipkg/environments.py | 48 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 09e34d1..4e1080e 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -12,6 +12,7 @@ from .utils import DictFile, execute, make_package_spec, mkdir
 from .compat import basestring
 from .files.exceptions import FilesException
 from .platforms import Platform
+from .requirements import Requirement
 
 
 LOGGER = logging.getLogger(__name__)
@@ -25,6 +26,11 @@ class UnknownEnvironment(IpkgException):
         return self.__doc__.strip()
 
 
+class DependencyLoop(IpkgException):
+
+    MESSAGE = 'Package %s depends on itself'
+
+
 class NotInstalled(IpkgException):
     """A package is missing.
     """
@@ -250,6 +256,8 @@ class Environment(object):
 
     def __init__(self, prefix, directories=None, variables=None):
         self.prefix = prefix
+        # Names of the packages whose dependencies are being installed
+        self.__installing = []
         self.directories = directories or EnvironmentDirectories(prefix)
         self.variables = variables or EnvironmentVariables(self.directories)
 
@@ -347,6 +355,8 @@ class Environment(object):
         if not isinstance(package, MetaPackage):
             raise IpkgException('Invalid package: %r' % package)
 
+        build_prefix, files = package.build_prefix, package.files
+
         # Check if the package is already installed
         for installed_package in self.meta['packages'].values():
             if installed_package['name'] == package.name:
@@ -357,29 +367,32 @@ class Environment(object):
                     LOGGER.warning('Package %(name)s %(version)s %(revision)s'
                                    ' is already installed' % package.meta)
                     return
-                else:
-                    # Different version/revision, uninstall it
-                    LOGGER.debug('Another version of %r is installed, '
-                                 'uninstalling it first' % package)
-                    self.uninstall(package.name)
                 break
 
         # Install dependencies
-        if package.dependencies:
-            for dependency in package.dependencies:
-                if dependency not in self.meta['packages']:
-                    LOGGER.info('Installing dependency: %s', dependency)
-                    self.install(dependency, repository)
+        if package.name in self.__installing:
+            raise DependencyLoop(package)
+        self.__installing.append(package.name)
+        try:
+            for dependency in package.dependencies or []:
+                self.__install_dependency(dependency, repository)
+        finally:
+            self.__installing.remove(package.name)
+
+        # Uninstall any other version/revision
+        if package.name in self.meta['packages']:
+            LOGGER.debug('Another version of %r is installed, '
+                         'uninstalling it first' % package)
+            self.uninstall(package.name)
 
         package.extract(self.prefix)
 
         # Rewrite files prefix if this environment prefix is different than
         # package build prefix.
         isfile, islink = os.path.isfile, os.path.islink
-        build_prefix = package.meta['build_prefix']
         if build_prefix != self.prefix:
             LOGGER.debug('Rewriting prefix in binaries and scripts')
-            for pkg_file in package.meta['files']:
+            for pkg_file in files:
                 file_dir, file_name = os.path.split(pkg_file)
                 if file_dir in ('bin', 'sbin') or file_dir.startswith('lib'):
                     file_path = os.path.join(self.prefix, pkg_file)
@@ -397,6 +410,17 @@ class Environment(object):
 
         LOGGER.info('Package %s installed', make_package_spec(package))
 
+    def __install_dependency(self, dependency, repository):
+        requirement = Requirement(dependency)
+        for installed_package in self.meta['packages'].values():
+            if requirement.satisfied_by(installed_package):
+                break
+        else:
+            LOGGER.info('Installing dependency: %s', dependency)
+            if repository is None:
+                raise IpkgException('Cannot find package %s' % dependency)
+            self.install(repository[requirement], repository)
+
     @property
     def packages(self):
         return map(MetaPackage, self.meta['packages'].values())
-- 
2.43.0


From 7156ed954840edbef68c7001006d83e6454f7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 20/44] fix: rewrite the prefix of files without the expected
 line or not writable

---
 ipkg/prefix_rewriters.py | 64 ++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index cd1960b..0b2dc4b 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -1,6 +1,7 @@
 import os
 import stat
 import logging
+from contextlib import contextmanager
 
 from .utils import execute, PIPE
 from .regex import PKGCONFIG_FILE, LIBTOOL_FILE
@@ -34,6 +35,24 @@ def rewrite_prefix(package_file, build_prefix, install_prefix):
             #             'cannot detect file type', file_path)
 
 
+@contextmanager
+def writable(file_path):
+    """Add the write flag to a file and remove it later to restore the
+       initial permissions.
+    """
+    mode = stat.S_IMODE(os.stat(file_path).st_mode)
+    file_writable = mode & stat.S_IWRITE
+
+    if not file_writable:
+        os.chmod(file_path, mode | stat.S_IWRITE)
+
+    try:
+        yield
+    finally:
+        if not file_writable:
+            os.chmod(file_path, mode)
+
+
 def rewrite_text_first_match(file_path, line_start, build_prefix,
                              install_prefix):
     """Rewrite the prefix. Only apply to the first line starting with
@@ -42,18 +61,17 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
     with open(file_path, 'r') as f:
         lines = f.readlines()
 
-    with open(file_path, 'w') as f:
-        while True:
-            line = lines.pop(0)
-
-            if line.startswith(line_start):
-                line = line.replace(build_prefix, install_prefix)
-                f.write(line)
-                f.writelines(lines)
-                break
+    for index, line in enumerate(lines):
+        if line.startswith(line_start):
+            lines[index] = line.replace(build_prefix, install_prefix)
+            break
+    else:
+        # No such line: nothing to rewrite
+        return
 
-            else:
-                f.write(line)
+    with writable(file_path):
+        with open(file_path, 'w') as f:
+            f.writelines(lines)
 
 
 def rewrite_pkgconfig(file_path, build_prefix, install_prefix):
@@ -83,9 +101,10 @@ def rewrite_text_first_line(file_path, build_prefix, install_prefix):
 
     first_line = first_line.replace(build_prefix, install_prefix)
 
-    with open(file_path, 'w') as f:
-        f.write(first_line)
-        f.writelines(other_lines)
+    with writable(file_path):
+        with open(file_path, 'w') as f:
+            f.write(first_line)
+            f.writelines(other_lines)
 
 
 def get_osx_bin_libs(file_path):
@@ -100,16 +119,6 @@ def rewrite_osx_bin(file_path, build_prefix, install_prefix):
     #LOGGER.debug('rewrite_osx_bin(%r, %r)', file_path,
     #             build_prefix)
 
-    # install_name_tool fails when the file is not writable.
-    # So we add the write flag before running it and
-    # remove it later to restore the initial permissions.
-
-    file_stat = os.stat(file_path)
-    file_writable = file_stat.st_mode & stat.S_IWRITE
-
-    if not file_writable:
-        os.chmod(file_path, file_stat.st_mode | stat.S_IWRITE)
-
     name_tool_cmd = ['install_name_tool', '-id', file_path]
 
     for lib in get_osx_bin_libs(file_path):
@@ -119,7 +128,6 @@ def rewrite_osx_bin(file_path, build_prefix, install_prefix):
 
     name_tool_cmd.append(file_path)
 
-    execute(name_tool_cmd)
-
-    if not file_writable:
-        os.chmod(file_path, file_stat.st_mode)
+    # install_name_tool fails when the file is not writable.
+    with writable(file_path):
+        execute(name_tool_cmd)
-- 
2.43.0


From 5b720a7cec1384ce766016bdd9c4a7a9f2567911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 21/44] fix: only redirect the libraries of the build prefix,
 whatever their path

---
 ipkg/prefix_rewriters.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 0b2dc4b..da9c390 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -112,7 +112,8 @@ def get_osx_bin_libs(file_path):
     otool_out = execute(otool_cmd, stdout=PIPE)[0]
     lines = otool_out.splitlines()[1:]
 
-    return [l[1:].split()[0] for l in lines]
+    # each line is: a tabulation, the path and versions between parentheses
+    return [l.strip().rsplit(' (', 1)[0] for l in lines]
 
 
 def rewrite_osx_bin(file_path, build_prefix, install_prefix):
@@ -121,10 +122,13 @@ def rewrite_osx_bin(file_path, build_prefix, install_prefix):
 
     name_tool_cmd = ['install_name_tool', '-id', file_path]
 
+    build_dir = os.path.join(build_prefix, '')
+    install_dir = os.path.join(install_prefix, '')
+
     for lib in get_osx_bin_libs(file_path):
-        if lib.startswith(build_prefix):
+        if lib.startswith(build_dir):
             name_tool_cmd.extend(['-change', lib,
-                                  lib.replace(build_prefix, install_prefix)])
+                                  install_dir + lib[len(build_dir):]])
 
     name_tool_cmd.append(file_path)
 
-- 
2.43.0


From a77d84cbf5d30325e90cdcd3f226a2ee7e94528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 22/44] fix: verify the checksum of the whole file

---
 ipkg/files/backends/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/files/backends/__init__.py b/ipkg/files/backends/__init__.py
index 62e6a17..d3a8be1 100644
--- a/ipkg/files/backends/__init__.py
+++ b/ipkg/files/backends/__init__.py
@@ -38,6 +38,7 @@ class BaseFile(object):
         else:
             hash_obj = self.hash_class()
             current_position = self.tell()
+            self.seek(0)
             file_content = self.read()
             self.seek(current_position)
             hash_obj.update(file_content)
@@ -58,4 +59,4 @@ class BaseFile(object):
         return 0
 
     def read(self, *args):
-        raise NotImplentedError
+        raise NotImplementedError
-- 
2.43.0


From c5979c3c30179e09a7d255bece706e6e943f0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 23/44] fix: never leave a partially written entry in the cache

---
 ipkg/files/cache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/cache.py b/ipkg/files/cache.py
index 4015710..c4fb8e3 100644
--- a/ipkg/files/cache.py
+++ b/ipkg/files/cache.py
@@ -1,5 +1,5 @@
 from logging import getLogger
-from os import path, environ
+from os import path, environ, getpid, rename
 from hashlib import sha256
 
 from .exceptions import FilesException
@@ -47,8 +47,12 @@ def has(name):
 
 def set(name, content):
     try:
-        with open(get_cache_filepath(name), 'wb') as f:
+        filepath = get_cache_filepath(name)
+        # An entry is only visible once it is complete
+        temporary = '%s.%i.tmp' % (filepath, getpid())
+        with open(temporary, 'wb') as f:
             f.write(content)
+        rename(temporary, filepath)
     except Exception as exc:
         LOGGER.exception('Failed to add %s to cache', name)
     else:
-- 
2.43.0


From 14d03e65f2a4aeb63eee6deb34f5d206cd26be48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 24/44] fix: refuse error responses and failed transfers, never
 cache them

---
 ipkg/files/backends/http.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 3297041..6cc4752 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -1,6 +1,12 @@
 import logging
 
+try:
+    from httplib import HTTPException
+except ImportError:  # Python 3
+    from http.client import HTTPException
+
 import requests
+from requests.packages.urllib3.exceptions import HTTPError
 
 from . import BaseFile, BackendException
 from .. import cache
@@ -23,14 +29,14 @@ class HttpFile(BaseFile):
 
     def __download(self):
         LOGGER.info('Downloading: %s', self.name)
+        content = StringIO()
+
         try:
             response = requests.get(self.name, stream=True)
 
-        except requests.RequestException as exc:
-            raise HttpFileException(str(exc))
-
-        else:
-            content = StringIO()
+            if response.status_code != requests.codes.ok:
+                raise HttpFileException('%s: unexpected response: %s %s' % (
+                    self.name, response.status_code, response.reason))
 
             while True:
                 data = response.raw.read(1024 * 1024)
@@ -39,14 +45,23 @@ class HttpFile(BaseFile):
                 else:
                     break
 
-            content.seek(0)
+        except (requests.RequestException, HTTPError, HTTPException,
+                EnvironmentError) as exc:
+            raise HttpFileException(str(exc))
+
+        expected_length = response.headers.get('content-length')
+        if expected_length and expected_length != str(content.tell()):
+            raise HttpFileException('%s: got %i bytes, expected %s' % (
+                self.name, content.tell(), expected_length))
 
-            if cache.is_active():
-                cache.set(self.name, content.read())
-                content.seek(0)
+        content.seek(0)
+
+        if cache.is_active():
+            cache.set(self.name, content.read())
+            content.seek(0)
 
-            self.__file = content
-            LOGGER.info('Downloaded: %s', self.name)
+        self.__file = content
+        LOGGER.info('Downloaded: %s', self.name)
 
     def __get_file(self):
         if self.__file is None:
-- 
2.43.0


From c10faa90cfc072390a96ea0e716da5286734ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 25/44] fix: open the file an address names, whatever its
 characters

---
 ipkg/files/backends/filesystem.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ipkg/files/backends/filesystem.py b/ipkg/files/backends/filesystem.py
index e113144..0ec53ed 100644
--- a/ipkg/files/backends/filesystem.py
+++ b/ipkg/files/backends/filesystem.py
@@ -1,10 +1,5 @@
 import os
 
-try:
-    from urlparse import urlparse
-except ImportError:  # Python 3
-    from urllib.parse import urlparse
-
 from . import BaseFile, BackendException
 
 
@@ -12,12 +7,26 @@ class LocalFileException(BackendException):
     """An error occurred while accessing a local file."""
 
 
+def get_path(address):
+    """Returns the path of a ``file:`` address, or of a plain path.
+
+       No character of a path is special.
+    """
+    scheme, _, path = address.partition(':')
+    if scheme.lower() != 'file':
+        return address
+    if path.startswith('//'):
+        _, slash, path = path[2:].partition('/')
+        path = slash + path
+    return path
+
+
 class LocalFile(BaseFile):
     """A file on the local filesystem.
     """
     def __init__(self, *args, **kw):
         super(LocalFile, self).__init__(*args, **kw)
-        filepath = urlparse(self.name).path
+        filepath = get_path(self.name)
         if os.path.isfile(filepath):
             self.__file = open(filepath)
         else:
-- 
2.43.0


From da72ed36cbfd9bbb774a81702c258b6e3f6efd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:12 +0000
Subject: [PATCH 26/44] fix: report every command which cannot be run, with its
 reason

---
 ipkg/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 6480674..9b63f90 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -100,7 +100,7 @@ def execute(command,
 
     kw = {'cwd': cwd}
 
-    if env:
+    if env is not None:
         kw['env'] = env
 
     if stdout:
@@ -118,15 +118,22 @@ def execute(command,
 
     # If command is a string, split it to get a format that Popen understands
     if isinstance(command, basestring):
-        command_ = shlex.split(command)
+        try:
+            command_ = shlex.split(command)
+        except ValueError as exception:
+            raise ExecutionFailed([command], str(exception))
     else:
         command_ = command
 
+    if not command_:
+        raise ExecutionFailed(command_, 'No command')
+
     try:
         process = subprocess.Popen(command_, **kw)
 
     except OSError as exception:
-        if exception.errno == errno.ENOENT:
+        if exception.errno == errno.ENOENT and \
+                (cwd is None or os.path.isdir(cwd)):
             error = 'Command not found'
         else:
             error = exception.strerror
@@ -189,6 +196,8 @@ def parse_package_spec(spec):
 def which(command):
     """Find a command in ``$PATH``.
     """
+    if 'PATH' not in os.environ:
+        return None
     for directory in os.environ['PATH'].split(':'):
         path = os.path.join(directory, command)
         if os.path.exists(path) and os.path.isfile(path):
-- 
2.43.0


From 51923fd9f63b288595bda397602defceb79a4afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:12 +0000
Subject: [PATCH 27/44] fix: refuse archives with members outside of a single
 directory

---
 ipkg/utils.py | 58 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 9b63f90..2ddc681 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -5,6 +5,7 @@ import logging
 import subprocess
 import tarfile
 import zipfile
+import zlib
 import errno
 import shlex
 
@@ -204,6 +205,39 @@ def which(command):
             return path
 
 
+def get_archive_root(members):
+    """Returns the name of the only item at root of a sources archive.
+
+       ``members`` is an iterable of ``(path, is_link, linked)``:
+       ``is_link`` is true for symbolic links, ``linked`` is the path of
+       another member for hard links.
+
+       All members must be extracted under the root item: an absolute path,
+       the parent directory or a link of the archive could lead elsewhere.
+    """
+    root_items = set()
+    links = set()
+
+    for path, is_link, linked in members:
+        for name in (linked, path):
+            if name is None:
+                continue
+            parts = tuple(p for p in name.split('/') if p not in ('', '.'))
+            if name.startswith('/') or '..' in parts or \
+                    any(parts[:i + 1] in links for i in range(len(parts))):
+                raise IpkgException('Unsafe path in sources file archive: %s' %
+                                    name)
+            root_items.update(parts[:1])
+        if is_link:
+            links.add(parts)
+
+    if len(root_items) != 1:
+        raise IpkgException('There must be strictly 1 item at '
+                            'root of sources file archive')
+
+    return root_items.pop()
+
+
 def unarchive(fileobj, target):
     """Extract an archive, detecting its format.
 
@@ -224,27 +258,33 @@ def unarchive(fileobj, target):
 
     tar_extensions = (['tar', 'bz2'], ['tar', 'gz'], ['tar', 'xz'])
     if filename.split('.')[-2:] in tar_extensions:
-        archive = tarfile.open(fileobj=fileobj)
-        root_items = set(i.path.split('/')[0] for i in archive)
+        try:
+            archive = tarfile.open(fileobj=fileobj)
+            members = [(i.path, i.issym(), i.linkname if i.islnk() else None)
+                       for i in archive]
+        except (tarfile.TarError, IOError, EOFError, zlib.error) as exception:
+            raise IpkgException('Invalid archive %s: %s' % (filename,
+                                                            exception))
 
     elif filename.endswith('.zip'):
-        archive = zipfile.ZipFile(fileobj)
-        root_items = set(i.filename.split('/')[0] for i in
-                         archive.filelist)
+        try:
+            archive = zipfile.ZipFile(fileobj)
+        except (zipfile.BadZipfile, IOError) as exception:
+            raise IpkgException('Invalid archive %s: %s' % (filename,
+                                                            exception))
+        members = [(i.filename, False, None) for i in archive.filelist]
 
     else:
         raise IpkgException('Unrecognized file type %s' % filename)
 
-    if len(root_items) != 1:
-        raise IpkgException('There must be strictly 1 item at '
-                            'root of sources file archive')
+    root_item = get_archive_root(members)
 
     LOGGER.info('Extracting: %s', fileobj)
     archive.extractall(target)
     LOGGER.info('Extracted: %s', fileobj)
     archive.close()
 
-    return os.path.join(target, root_items.pop())
+    return os.path.join(target, root_item)
 
 
 def mkdir(directory, fail_if_it_exist=True):
-- 
2.43.0


From ae49cd64101b1ebc05b7ec1dfaf865d016283d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 28/44] fix: find links to directories, whatever the path of
 the prefix

---
 ipkg/build.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 9fa1a90..0998b05 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -41,9 +41,12 @@ def find_files(base):
     """Create a list of files in prefix ``base``.
     """
     result = []
-    for parent, _, files in os.walk(base):
-        rel_dir = parent.split(base)[1][1:]
-        for filename in files:
+    for parent, directories, files in os.walk(base):
+        rel_dir = parent[len(base):].lstrip(os.sep)
+        # os.walk() does not follow links to directories: these are files
+        links = [name for name in directories
+                 if os.path.islink(os.path.join(parent, name))]
+        for filename in files + links:
             result.append(os.path.join(rel_dir, filename))
     return result
 
-- 
2.43.0


From e3435659dadeb388ff1372fcfede344b80689a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 29/44] fix: run each command with its own arguments only

---
 ipkg/build.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 0998b05..edbd449 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -127,10 +127,11 @@ class Formula(NameVersionRevisionComparable):
 
     def __getattr__(self, attr):
         if attr.startswith('run_'):
-            command = [attr.split('_', 1)[1]]
+            name = attr.split('_', 1)[1]
 
             def func(args=None, **kw):
                 """Wrap calls to ``run_command``."""
+                command = [name]
                 if args:
                     if isinstance(args, basestring):
                         args = args.split()
-- 
2.43.0


From 006bb329c9b536cecfaec09bfae0fd8c1b408a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 30/44] fix: only uninstall the dependencies which were
 installed for a build

---
 ipkg/build.py        | 12 ++++++------
 ipkg/environments.py |  7 +++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index edbd449..d88df3a 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -146,7 +146,6 @@ class Formula(NameVersionRevisionComparable):
         LOGGER.debug('%r.build(package_dir=%s, remove_build_dir=%s)',
                      self, package_dir, remove_build_dir)
 
-        installed_dependencies = []
         build_dir = tempfile.mkdtemp(prefix='ipkg-build-')
 
         # Create a temporary env if no env has been previously defined
@@ -161,14 +160,14 @@ class Formula(NameVersionRevisionComparable):
 
         env_prefix = self.environment.prefix
 
+        installed_before = set(p.name for p in self.environment.packages)
+
         # Install dependencies in build environment
         if self.dependencies:
             LOGGER.info('Build dependencies: %s',
                         ', '.join(self.dependencies))
             for dependency in self.dependencies:
-                if dependency not in self.environment.packages:
-                    self.environment.install(dependency, repository)
-                    installed_dependencies.append(dependency)
+                self.environment.install_dependency(dependency, repository)
 
         # Create the sources root directory
         self.src_root = src_root = os.path.join(build_dir, 'sources')
@@ -206,8 +205,9 @@ class Formula(NameVersionRevisionComparable):
 
         if self.dependencies:
             LOGGER.debug('Uninstalling dependencies from build environment')
-            for dependency in self.dependencies:
-                self.environment.uninstall(dependency)
+            for package in self.environment.packages:
+                if package.name not in installed_before:
+                    self.environment.uninstall(package.name)
 
         if remove_build_dir:
             LOGGER.debug('Removing build directory: %s', build_dir)
diff --git a/ipkg/environments.py b/ipkg/environments.py
index 4e1080e..3e23a58 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -375,7 +375,7 @@ class Environment(object):
         self.__installing.append(package.name)
         try:
             for dependency in package.dependencies or []:
-                self.__install_dependency(dependency, repository)
+                self.install_dependency(dependency, repository)
         finally:
             self.__installing.remove(package.name)
 
@@ -410,7 +410,10 @@ class Environment(object):
 
         LOGGER.info('Package %s installed', make_package_spec(package))
 
-    def __install_dependency(self, dependency, repository):
+    def install_dependency(self, dependency, repository=None):
+        """Install a package satisfying the ``dependency`` requirement,
+           unless there is already one.
+        """
         requirement = Requirement(dependency)
         for installed_package in self.meta['packages'].values():
             if requirement.satisfied_by(installed_package):
-- 
2.43.0


From 60ea627b96285b28c25c8fdcf3750a62673b5d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 31/44] fix: make file names without slashes for packages

---
 ipkg/packages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index 062d52f..9bf3cb6 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -144,4 +144,6 @@ def is_inside(root, path, follow=True):
 
 
 def make_filename(**meta):
-    return '%(name)s-%(version)s-%(revision)s-%(platform)s.ipkg' % meta
+    filename = '%(name)s-%(version)s-%(revision)s-%(platform)s.ipkg' % meta
+    # Some platforms have a slash, like debian-jessie/sid-x86_64
+    return filename.replace('/', '_')
-- 
2.43.0


From e138a19fd6cb3d72e76b9cb314e3f9fb0bb0e91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 32/44] fix: report the arguments which cannot be opened
 without a traceback

---
 ipkg/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipkg/cli.py b/ipkg/cli.py
index e1c71a7..7106ba7 100644
--- a/ipkg/cli.py
+++ b/ipkg/cli.py
@@ -30,7 +30,11 @@ class Ipkg(object):
     def __call__(self):
         """Run ipkg.
         """
-        args = self.parser.parse_args().__dict__
+        try:
+            args = self.parser.parse_args().__dict__
+        except IpkgException as exception:
+            # An environment, a repository or a file which cannot be opened
+            self.parser.error(str(exception))
         func = args.pop('func')
         debug = args.pop('debug')
 
-- 
2.43.0


From abfe000227f80dc2e57c73a7ab23751e0588042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 33/44] fix: report the lack of a repository to update

---
 ipkg/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipkg/cli.py b/ipkg/cli.py
index 7106ba7..65968cf 100644
--- a/ipkg/cli.py
+++ b/ipkg/cli.py
@@ -274,6 +274,8 @@ def build(build_file, environment, verbose, repository, package_dir,
     formula = Formula.from_file(build_file)(environment, verbose)
 
     if update_repository:
+        if repository is None:
+            raise IpkgException('No repository to update')
         repository = repositories.LocalPackageRepository(repository.base)
         repository.build_formula(formula, remove_build_dir)
     else:
-- 
2.43.0


From 5e9cafdad58b689ced7df5f8de543a0289ef5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 34/44] fix: load the index of remote repositories

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 2ddc681..75362a3 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -61,7 +61,7 @@ class DictFile(dict):
         self.reload()
 
     def reload(self):
-        if os.path.isfile(self.__file_path):
+        if '://' in self.__file_path or os.path.isfile(self.__file_path):
             LOGGER.debug('Loading %s', self.__file_path)
             raw = vopen(self.__file_path).read()
             if raw:
-- 
2.43.0


From da06519003c4bc93db0200a32e681a4bfb8ac6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 35/44] fix: keep the candidate packages in the solution

Packages of repositories are MetaPackage objects too: only the ones which
come from the environment are installed.
---
 ipkg/dependencies.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index b0b5039..039c10a 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -5,7 +5,6 @@ from .requirements import Requirement
 from .exceptions import IpkgException
 from .platforms import Platform
 from .build import Formula
-from .packages import MetaPackage
 from . import versions
 
 
@@ -56,8 +55,10 @@ class Node(object):
     :py:class:`~ipkg.packages.MetaPackage` or \
     :py:class:`~ipkg.build.Formula`
     """
-    def __init__(self, obj, skip_dependencies=False):
+    def __init__(self, obj, skip_dependencies=False, installed=False):
         self.obj = obj
+        # True when the object comes from an environment
+        self.installed = installed
         # dict of Requirement: set of nodes who satisfy the requirement
         self.requirements = {}
         # list of nodes who depend on this one
@@ -144,7 +145,7 @@ class Solver(object):
         #: Dictionary using ``object`` as key and :class:`Node` as value
         self.objects = {}
 
-    def add(self, obj, skip_dependencies=False):
+    def add(self, obj, skip_dependencies=False, installed=False):
         """Add a node to the solver.
 
         :type obj: :py:class:`~ipkg.packages.PackageFile`, \
@@ -152,6 +153,7 @@ class Solver(object):
         :py:class:`~ipkg.build.Formula`
         :param boolean skip_dependencies: Ignore object's requirements if \
         ``True``.
+        :param boolean installed: The object is installed in the environment.
 
         When adding a node to the solver,
         it tries to match the new node to the unsatisfied
@@ -161,7 +163,7 @@ class Solver(object):
         if obj in self.objects:
             raise IpkgException('WTF: obj already in solver')
 
-        new_node = Node(obj, skip_dependencies=skip_dependencies)
+        new_node = Node(obj, skip_dependencies, installed)
 
         # Merge the new node requirements to their corresponding
         # SolverRequirement objects
@@ -237,7 +239,7 @@ class Solver(object):
                     if requirement.satisfied_by(package):
                         LOGGER.debug('Satisfied by environment package %s',
                                      package)
-                        solver.add(package)
+                        solver.add(package, installed=True)
                         found = True
                         break
                 if found is True:
@@ -391,7 +393,7 @@ class Solver(object):
         result = []
         for node in reversed(sorted_nodes):
             if ignore_installed_packages:
-                if not isinstance(node.obj, MetaPackage):
+                if not node.installed:
                     result.append(node.obj)
             else:
                 result.append(node.obj)
-- 
2.43.0


From 0178dab49951dc07bf7a91032f8b59d7922e0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 36/44] fix: do not solve the dependencies of installed
 packages

---
 ipkg/dependencies.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 039c10a..1219650 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -239,7 +239,9 @@ class Solver(object):
                     if requirement.satisfied_by(package):
                         LOGGER.debug('Satisfied by environment package %s',
                                      package)
-                        solver.add(package, installed=True)
+                        # What it depends on is already installed
+                        solver.add(package, skip_dependencies=True,
+                                   installed=True)
                         found = True
                         break
                 if found is True:
-- 
2.43.0


From d08575967f8fa10be479fa7275f90bd557bc5257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 37/44] fix: search each requirement once

A package which depends on another version of itself that cannot be found was
searched forever.
---
 ipkg/dependencies.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index 1219650..abd46ca 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -208,6 +208,8 @@ class Solver(object):
         solver = cls()
         node = solver.add(obj)
         queue = set()
+        # Requirements which were already searched
+        searched = set()
 
         for requirement in node.requirements:
             queue.add((node, requirement))
@@ -233,6 +235,10 @@ class Solver(object):
 #                                 requirement,
 #                                 solver.requirements[requirement.name])
 
+            if requirement in searched:
+                continue
+            searched.add(requirement)
+
             if environment:
                 found = False
                 for package in environment.packages:
-- 
2.43.0


From cd6906cd540fa083caa25df67c56303f4e1ae5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 38/44] fix: order the selected packages of the solution only

Packages which are not part of the solution made loops of it, or left the
target out, and packages depending on the target were handled for ever.
---
 ipkg/dependencies.py | 82 ++++++++++++++++++++------------------------
 1 file changed, 37 insertions(+), 45 deletions(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index abd46ca..e48d94f 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -333,70 +333,62 @@ class Solver(object):
 
         if target is None:
             nodes = self.nodes
+            selected = {}
         else:
             target = self.__from_target(target)
             nodes = [target]
+            selected = {target.obj.name: target}
             for obj in self.find_best_dependencies(target, dependency_selector):
-                nodes.append(self.objects[obj])
+                if obj.name not in selected:
+                    nodes.append(self.objects[obj])
+                    selected[obj.name] = self.objects[obj]
+
+        # Nodes each node depends on, and nodes which depend on it.
+        # Other versions of the nodes do not matter here.
+        dependencies = dict((node, []) for node in nodes)
+        dependents = dict((node, set()) for node in nodes)
+
+        for node in nodes:
+            for requirement in node.requirements:
+                if requirement.name in selected:
+                    dependency = selected[requirement.name]
+                else:
+                    node_set = self.requirements[requirement.name].satisfiers
+                    if not node_set:
+                        raise IpkgException('Unsatisfied requirement: %s, '
+                                            'asked by %s' % (requirement, node))
+                    dependency = self.objects[dependency_selector(node_set)]
+
+                LOGGER.debug(' Best satisfier for requirement %s: %s',
+                             requirement, dependency)
+                dependencies[node].append(dependency)
+                dependents[dependency].add(node)
 
         for node in nodes:
             LOGGER.debug('node %r', node)
-            if not node.dependents:
+            if not dependents[node]:
                 queue.append(node)
         LOGGER.debug('Queue: %r', queue)
 
-        if not queue:
-            raise IpkgException('Cannot find a node which is not a '
-                                'dependency of other nodes (loop?)')
-
-        node_dependents = {}
-
         while queue:
             node = queue.pop(0)
             LOGGER.debug('Node from queue: %r', node)
             sorted_nodes.append(node)
 
-            for requirement in node.requirements:
-                node_set = self.requirements[requirement.name].satisfiers
-                LOGGER.debug(' Available nodes for requirement %s: %s',
-                             requirement, node_set)
-
-                node_set_len = len(node_set)
-                if node_set_len == 0:
-                    raise IpkgException('Unsatisfied requirement: %s, '
-                                        'asked by %s' % (requirement, node))
-                elif node_set_len == 1:
-                    dependency = list(node_set)[0]
-                else:
-                    dependency = self.objects[dependency_selector(node_set)]
-
-                LOGGER.debug(' Best satisfier for requirement %s: %s (%i)',
-                             requirement, dependency, id(dependency))
+            for dependency in dependencies[node]:
+                if node in dependents[dependency]:
+                    dependents[dependency].remove(node)
+                    if not dependents[dependency]:
+                        # no other node depend on the dependency
+                        LOGGER.debug(' Added %s to queue', dependency)
+                        queue.append(dependency)
 
-                if dependency not in node_dependents:
-                    node_dependents[dependency] = set(dependency.dependents)
-                    LOGGER.debug(' First time we see %s, dependents=%s',
-                                 dependency, node_dependents[dependency])
-
-                for dependent in list(node_dependents[dependency]):
-                    if dependent.obj.name == node.obj.name:
-                        node_dependents[dependency].remove(dependent)
-                LOGGER.debug(' %s dependents: %s',
-                             dependency, node_dependents[dependency])
-
-                if not node_dependents[dependency]:
-                    # no other node depend on the dependency
-                    LOGGER.debug(' Added %s to queue', dependency)
-                    queue.append(dependency)
-                else:
-                    LOGGER.debug(' %s not added to queue', dependency)
-            
             LOGGER.debug('queue %r', queue)
             LOGGER.debug('sorted_nodes %r', sorted_nodes)
 
-        for node, dependents in node_dependents.items():
-            if dependents:
-                raise DependencyLoop(node, dependents)
+        for node in nodes:
+            if dependents[node]:
+                raise DependencyLoop(node, dependents[node])
 
         result = []
         for node in reversed(sorted_nodes):
-- 
2.43.0


From 1f2d05b7d7ab9e010becbf9296a3fad115673329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 39/44] fix: give each formula file a module of its own

---
 ipkg/build.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index d88df3a..8afb503 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -8,6 +8,7 @@ import time
 import tarfile
 import json
 import imp
+import itertools
 from socket import gethostname
 
 from .environments import Environment
@@ -21,6 +22,7 @@ from .platforms import Platform
 
 
 LOGGER = logging.getLogger(__name__)
+MODULE_NUMBERS = itertools.count()
 
 
 class BuildError(IpkgException):
@@ -290,7 +292,10 @@ class Formula(NameVersionRevisionComparable):
 
         filepath = os.path.abspath(filepath)
         filename = os.path.basename(filepath)
-        module_name = filename.split('.py')[0].replace('.', '_')
+        # imp.load_source() would add the formula to the content of any loaded
+        # module which has the same name: each file gets a module of its own
+        module_name = 'formula_%i_%s' % (
+            next(MODULE_NUMBERS), filename.split('.py')[0].replace('.', '_'))
 
         try:
             module = imp.load_source(module_name, filepath)
-- 
2.43.0


From 43f9fe330069c0ab482059e1049a2f821f48e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 40/44] fix: make temporary directories without a name prefix

---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 3e23a58..fec73be 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -293,7 +293,8 @@ class Environment(object):
 
            It will be stored in the environment ``tmp`` sub-directory.
         """
-        return tempfile.mkdtemp(prefix=prefix, dir=self.directories['tmp'])
+        return tempfile.mkdtemp(prefix=prefix or tempfile.gettempprefix(),
+                                dir=self.directories['tmp'])
 
     def cleanup_tmpdir(self):
         """Remove then re-create the temporary files directory.
-- 
2.43.0


From 3c691965ae366a3255e0b5fd8d2b0105b4911a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 41/44] fix: name the file in checksum and download errors

---
 ipkg/files/backends/__init__.py | 2 +-
 ipkg/files/backends/http.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/backends/__init__.py b/ipkg/files/backends/__init__.py
index d3a8be1..7640e9b 100644
--- a/ipkg/files/backends/__init__.py
+++ b/ipkg/files/backends/__init__.py
@@ -47,7 +47,7 @@ class BaseFile(object):
             if file_hash != self.expected_hash:
                 LOGGER.error('File checksum is %s, expected %s (%s)',
                              file_hash, self.expected_hash, hash_obj.name)
-                raise InvalidChecksum()
+                raise InvalidChecksum('Invalid checksum: %s' % self.name)
 
             else:
                 LOGGER.debug('Checksum ok for %s', self.name)
diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 6cc4752..32493ef 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -47,7 +47,7 @@ class HttpFile(BaseFile):
 
         except (requests.RequestException, HTTPError, HTTPException,
                 EnvironmentError) as exc:
-            raise HttpFileException(str(exc))
+            raise HttpFileException('%s: %s' % (self.name, exc))
 
         expected_length = response.headers.get('content-length')
         if expected_length and expected_length != str(content.tell()):
-- 
2.43.0


From 00377280cdcc9fdb705c7aa73f36303723255a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 42/44] fix: show the message of solver errors

---
 ipkg/dependencies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index e48d94f..383aabc 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -26,6 +26,10 @@ def select_most_recent_version(objects):
 class SolverError(IpkgException):
     """An :py:class:`~Solver` error.
     """
+    message = None
+
+    def __str__(self):
+        return self.message or super(SolverError, self).__str__()
 
 
 class DependencyNotFound(SolverError):
-- 
2.43.0


From aba7810b242660d2aa2b562966626f182e515902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 43/44] fix: drop the variables of a build when it is done

---
 ipkg/build.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipkg/build.py b/ipkg/build.py
index 8afb503..b7e70bd 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -157,6 +157,8 @@ class Formula(NameVersionRevisionComparable):
             self.environment = Environment(prefix)
             self.environment.directories.create()
 
+        variables_before = dict(self.environment.variables)
+
         if self.build_envvars:
             self.environment.variables.add(self.build_envvars)
 
@@ -211,6 +213,10 @@ class Formula(NameVersionRevisionComparable):
                 if package.name not in installed_before:
                     self.environment.uninstall(package.name)
 
+        # The variables of this build must not reach the next one
+        self.environment.variables.clear()
+        self.environment.variables.update(variables_before)
+
         if remove_build_dir:
             LOGGER.debug('Removing build directory: %s', build_dir)
             shutil.rmtree(build_dir)
-- 
2.43.0


From 28fb65ab7ee9e62c40787bdc35aa63047e646345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 44/44] fix: let two processes save the same file at once

---
 ipkg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 75362a3..87740d1 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -83,8 +83,9 @@ class DictFile(dict):
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
         # This will break if trying to call save() on a remote DictFile
-        # The previous content is only replaced by a complete new one
-        tmp_path = self.__file_path + '.tmp'
+        # The previous content is only replaced by a complete new one, written
+        # to a file which another process does not use
+        tmp_path = '%s.%i.tmp' % (self.__file_path, os.getpid())
         with open(tmp_path, 'w') as f:
             json.dump(self, f, indent=4)
         os.rename(tmp_path, self.__file_path)
-- 
2.43.0

