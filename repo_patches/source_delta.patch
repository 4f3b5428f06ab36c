From 5bc22c03d57f3779590a48e5ee36976563b52f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 01/59] fix: database: read the single entry of a source
 description on python 3

---
 xylem/sources/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f0ce0bc..5707b16 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -210,7 +210,7 @@ class RulesDatabase(object):
             sources_gen = get_default_source_descriptions()
         for source_file, source_descriptions in sources_gen:
             for descr in source_descriptions:
-                spec_name, arguments = descr.items()[0]
+                spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
                 self.sources.append(RulesSource(
                     spec,
-- 
2.43.0


From 032783a8b6e1ca1369428b440768061738e998a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 02/59] fix: sources: accept valid source descriptions on
 python 3

---
 xylem/sources/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index eaeb3cc..82f3559 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -170,7 +170,7 @@ def verify_source_description(descr):
     if not isinstance(descr, dict):
         raise ValueError("Expected source description to be a dictionary, but "
                          "got '{0}'.".format(to_str(type(descr))))
-    keys = descr.keys()
+    keys = list(descr.keys())
     if not len(keys) == 1:
         raise ValueError("Expected source description to have one entry, but "
                          "got keys '{0}'.".format(keys))
@@ -178,7 +178,7 @@ def verify_source_description(descr):
         verify_spec_name(keys[0])
     except ValueError as e:
         raise_from(ValueError, "source description does not have valid "
-                   "spec name '{0}'".format(keys[0], e))
+                   "spec name '{0}'".format(keys[0]), e)
 
 
 def sources_cache_dir(cache_dir):
-- 
2.43.0


From 945d4bb7bf22ae495d9d2daa2d7b4859706721ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 03/59] fix: database: hash the encoded unique id of a source

---
 xylem/sources/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 5707b16..a4044da 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -29,6 +29,7 @@ from xylem.log_utils import is_verbose
 from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
+from xylem.text_utils import to_bytes
 from xylem.text_utils import to_str
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
@@ -38,7 +39,7 @@ from xylem.sources.rules_dict import merge_installer_dict
 
 
 def _id_string(unique_id):
-    return hashlib.sha1(unique_id).hexdigest()
+    return hashlib.sha1(to_bytes(unique_id)).hexdigest()
 
 
 def _cache_file_path(cache_dir, unique_id):
-- 
2.43.0


From b4a396884020c322a7b78cbf6dc3275053555c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 04/59] fix: database: checking for an outdated cache and
 clearing it no longer crash

---
 xylem/sources/database.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index a4044da..f36f214 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -151,9 +151,10 @@ class RulesSource(object):
             return True
         cache_data = _read_cache(self.cache_file_path())
         # here we could also check xylem version if needed in the future
-        if self.spec.name != cache_data('spec_name'):
+        if self.spec.name != cache_data['spec_name']:
             return True
-        return self.spec.is_data_outdated(cache_data['data'], self.arguments)
+        return self.spec.is_data_outdated(cache_data['data'], self.arguments,
+                                          cache_data['time_data_loaded'])
 
     def is_cache_available(self):
         path = self.cache_file_path()
@@ -166,14 +167,14 @@ class RulesSource(object):
 
         :raises OSError: if cache file cannot be removed
         """
-        path = self.cache_file_path(self.sources_context)
+        path = self.cache_file_path()
         if os.path.exists(path):
             if is_verbose():
-                info("Removing cache file '%s'.", path)
+                info("Removing cache file '{0}'.".format(path))
             os.remove(path)
         else:
             if is_verbose():
-                info("Cache file '%s' already clear.", path)
+                info("Cache file '{0}' already clear.".format(path))
 
     def lookup(self, xylem_key, installer_context):
         installer_dict = self.spec.lookup(
-- 
2.43.0


From df1a38b641295ab72b4822db5cd93b3672766111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 05/59] fix: database: replace cache files atomically

---
 xylem/sources/database.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f36f214..b225c3b 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -18,6 +18,7 @@ from __future__ import print_function
 import os
 import hashlib
 import datetime
+import uuid
 
 import six.moves.cPickle as pickle
 
@@ -93,9 +94,19 @@ def _read_cache(filepath):
 
 
 def _write_cache(cache_data, filepath):
-    with open(filepath, 'wb') as f:
-        # protocol 2 is compatible with python 2 and 3
-        pickle.dump(cache_data, f, protocol=2)
+    # write to a temporary file first and then move it into place, such
+    # that neither a failure nor a concurrent reader or writer ever
+    # leaves or sees a partially written cache file
+    temp_path = "{0}.{1}.tmp".format(filepath, uuid.uuid4().hex)
+    try:
+        with open(temp_path, 'wb') as f:
+            # protocol 2 is compatible with python 2 and 3
+            pickle.dump(cache_data, f, protocol=2)
+        getattr(os, 'replace', os.rename)(temp_path, filepath)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
 
 
 class RulesSource(object):
-- 
2.43.0


From 3c6bd0dd83ab24ac83c06cd13b961dafe9ddd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 06/59] fix: install: support reinstall and return errors of
 determining uninstalled packages

---
 xylem/install.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index 0f833a8..28fdb43 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -25,14 +25,12 @@ from xylem.installers import InstallerError
 from xylem.resolve import resolve
 
 from xylem.exception import raise_from
-from xylem.exception import exc_to_str
 from xylem.exception import chain_exception
 from xylem.exception import XylemError
 from xylem.exception import XylemInternalError
 
 from xylem.log_utils import info
 from xylem.log_utils import info_v
-from xylem.log_utils import error
 
 from xylem.util import remove_duplicates
 
@@ -83,16 +81,13 @@ def install(xylem_keys,
                                 interactive=interactive)
 
     #  4. Determine uninstalled resolutions
+    uninstalled_errors = []
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
-        # TODO: figure out what exactly to do with these errors... For
-        #       now print them here
-        for err in uninstalled_errors:
-            error(exc_to_str(uninstalled_errors))
 
     if uninstalled_errors and not continue_on_error:
-        return resolve_errors, []
+        return resolve_errors, uninstalled_errors
 
     #  5. check prerequisites all resolutions to be installed
     check_install_prerequisites(_map_resolutions(resolved),
@@ -108,7 +103,7 @@ def install(xylem_keys,
                                       simulate=simulate,
                                       continue_on_error=continue_on_error)
 
-    return resolve_errors, install_errors
+    return resolve_errors, uninstalled_errors + install_errors
 
 
 def _installer_names(resolved):
-- 
2.43.0


From 3106d387299f22c44d69624e594d28b26605c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 07/59] fix: install: report failure to compose install
 commands

---
 xylem/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/install.py b/xylem/install.py
index 28fdb43..97d53ae 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -238,6 +238,7 @@ def install_resolutions(installer_name,
             "for resolutions {} with options `interactive={}` and "
             "`reinstall={}`".
             format(installer_name, resolutions, interactive, reinstall), e))
+        return errors
     except Exception as e:
         raise_from(
             XylemInternalError, "unexpected error in installer '{}' while "
-- 
2.43.0


From a4dbdbc4e8c5c7985c96e0f5158380169a9e5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 08/59] fix: install: run commands that contain color
 annotation characters

---
 xylem/install.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 97d53ae..08fdfdf 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -34,6 +34,7 @@ from xylem.log_utils import info_v
 
 from xylem.util import remove_duplicates
 
+from xylem.terminal_color import ansi
 from xylem.terminal_color import fmt
 
 
@@ -259,7 +260,7 @@ def install_resolutions(installer_name,
 
     # 2. else, run each install command set and collect errors
     for cmd in commands:
-        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
+        info(ansi('boldon') + "executing command: %s" % ' '.join(cmd))
         exitcode = subprocess.call(cmd)
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
-- 
2.43.0


From 2a4859626b3d74c1eed8c1ff6f934aeae0ec8211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 09/59] fix: lookup: return the rules when not compacting

---
 xylem/lookup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index b4e4d50..7fc013e 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -37,7 +37,6 @@ def lookup(xylem_key, compact=False, config=None, sources_context=None,
 
     if compact:
         default_installer_name = ic.get_default_installer_name()
-        compacted = compact_installer_dict(installer_dict,
-                                           default_installer_name)
+        return compact_installer_dict(installer_dict, default_installer_name)
 
-    return compacted
+    return installer_dict
-- 
2.43.0


From a3059e2d781dee91c7ba8c11cf0f77e5c6e0d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 10/59] fix: rules spec: raise SpecParsingError for invalid
 rules

---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 620f4fe..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        ValueError.__init__(self, msg)
+        super(SpecParsingError, self).__init__(msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 1f8a44b85cfe8e718ee85e6afa4a1a6f7ab5a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 11/59] fix: rules dict: merge default installer rules for any
 version

---
 xylem/sources/rules_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 2922a08..7557cee 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -378,7 +378,8 @@ def merge_version_dict(new_version_dict, combined_version_dict,
             remove_rule_for_all_versions(combined_version_dict, installer)
         if "any_version" in combined_version_dict:
             merge_installer_dict(
-                new_installer_dict, combined_version_dict["any_version"], None)
+                new_installer_dict, combined_version_dict["any_version"],
+                default_installer)
         else:
             combined_version_dict["any_version"] = copy_installer_dict(
                 new_installer_dict, default_installer)
-- 
2.43.0


From 6dd9aa016e5d4e91bb69a18bfe2a2ce1b287c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 12/59] fix: rules dict: pass on if the default installer is
 allowed when verifying

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 7557cee..58974e8 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -99,7 +99,7 @@ def verify_rules_dict(rules_dict, allow_default_installer=True):
             raise_from(ValueError, "Expected rules dict to have xylem keys as "
                        "keys.", e)
         try:
-            verify_os_dict(os_dict)
+            verify_os_dict(os_dict, allow_default_installer)
         except ValueError as e:
             raise_from(ValueError, "Expected rules dict to have valid os "
                        "dicts as values, but got error for key '{0}'.".
-- 
2.43.0


From 8f30ed809a2eabfc6c8932e1f0aed0ced217deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 13/59] fix: rules dict: reject identifiers with trailing
 newline

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 58974e8..04734b3 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -280,7 +280,7 @@ def verify_rules_dict_identifier(identifier, kind, allow_keywords=[]):
                          format(kind, identifier))
     if identifier in rules_dict_whitelist:
         return
-    if not re.match('(?u)^[\w.’+-]+$', identifier):
+    if not re.match(r'(?u)^[\w.’+-]+\Z', identifier):
         raise ValueError(
             "{0} '{1}' has disallowed characters. Allowed are: alphanumeric, "
             "dash, dot, underscore.".format(kind, identifier))
-- 
2.43.0


From eb9097634dbbca6f06785d38a2cd114c5799bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 14/59] fix: log utils: print text instead of the
 representation of bytes on python 3

---
 xylem/log_utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index 30becc1..88a94ff 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -17,6 +17,7 @@ from __future__ import unicode_literals
 
 import os
 import sys
+import six
 
 from xylem.text_utils import to_str
 from xylem.text_utils import to_bytes
@@ -32,6 +33,11 @@ _verbose = False
 enable_ANSI_colors()
 
 
+def _to_native(msg):
+    """Encode for printing on py2, where streams are byte streams."""
+    return to_bytes(msg) if six.PY2 else msg
+
+
 def enable_verbose(state=True):
     """En- or disable printing verbose output to console."""
     global _verbose
@@ -73,7 +79,7 @@ def debug(msg, file=None, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('greenf') + msg + ansi('reset')
     if is_debug():
-        print(to_bytes(msg), file=file, *args, **kwargs)
+        print(_to_native(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -87,7 +93,7 @@ def info(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stdout
     msg = to_str(msg)
     msg = msg + ansi('reset')  # Assume that msg might contain colors
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_to_native(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -102,7 +108,7 @@ def warning(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stderr
     msg = to_str(msg)
     msg = ansi('yellowf') + msg + ansi('reset')
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_to_native(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -117,8 +123,8 @@ def error(msg, file=None, exit=False, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('redf') + ansi('boldon') + msg + ansi('reset')
     if exit:
-        sys.exit(to_bytes(msg))
-    print(to_bytes(msg), file=file, *args, **kwargs)
+        sys.exit(_to_native(msg))
+    print(_to_native(msg), file=file, *args, **kwargs)
     return msg
 
 
-- 
2.43.0


From 39030740050f341473ff7977599a301e00652c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 15/59] fix: update: do not touch the cache for dry runs

---
 xylem/update.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xylem/update.py b/xylem/update.py
index 09abf20..cf4bf3d 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -78,9 +78,14 @@ def update(dry_run=False, config=None, sources_context=None):
     if config is None:
         config = get_config()
     sources_context = sources_context or SourcesContext(config)
-    sources_context.ensure_cache_dir()
+    if not dry_run:
+        sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
     database.print_info = True
     # support partial update of local sources even without connectivity:
     database.raise_on_error = False
-    database.update()
+    if dry_run:
+        # load and verify the sources, but do not touch the cache
+        database.load_from_source()
+    else:
+        database.update()
-- 
2.43.0


From 20b5856695f155a6fb3030ec5099cc44ccdea49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 16/59] fix: sources: load source files in alphabetical order

---
 xylem/sources/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 82f3559..e65f3a8 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -85,7 +85,7 @@ def load_sources_from_path(path):
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     return _load_sources(
-        [os.path.join(path, s) for s in os.listdir(path)])
+        [os.path.join(path, s) for s in sorted(os.listdir(path))])
 
 
 def _load_sources(files):
-- 
2.43.0


From d70b538d3b06a8e33c2859b0bf18732d992f6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 17/59] fix: sources: ignore hidden source files instead of
 relative paths

---
 xylem/sources/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index e65f3a8..729caf6 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -90,7 +90,7 @@ def load_sources_from_path(path):
 
 def _load_sources(files):
     for file_path in files:
-        if file_path.startswith('.'):
+        if os.path.basename(file_path).startswith('.'):
             continue
         if not file_path.endswith('.yaml'):
             continue
-- 
2.43.0


From a663dbf87a8b7530201ac2f2a85c3260525faa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 18/59] fix: config: parse the os override of configs passed as
 dict

---
 xylem/config.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xylem/config.py b/xylem/config.py
index 12b63b0..bbf5257 100644
--- a/xylem/config.py
+++ b/xylem/config.py
@@ -289,6 +289,15 @@ def process_config(config, args):
             else:
                 config.sources_dir = sources_dir(
                     system_config_dir(args.prefix, XYLEM_TOOL_NAME))
+    process_os_override(config)
+
+
+def process_os_override(config):
+    """Post-process ``"os_override"`` in the loaded config.
+
+    Parses ``"os_override"`` into (name, version) tuple and the
+    potential override of ``"os_options/features"``.
+    """
     if config.os_override is not None:
         name, version, features = parse_os_override(config.os_override)
         config.os_override = (name, version)
@@ -313,6 +322,8 @@ def ensure_config(config):
     if isinstance(config, ConfigDict):
         return config
     if isinstance(config, dict):
-        return config_from_parsed_yaml(
+        config = config_from_parsed_yaml(
             config, get_config_description(), use_defaults=True)
+        process_os_override(config)
+        return config
     raise ValueError("invalid config of type '{}'".format(type_name(config)))
-- 
2.43.0


From a4e4b179447b8d80b52e5dbf5f63b9b2fe558224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 19/59] fix: installers: make resolutions hashable consistently
 with equality

---
 xylem/installers/installer_base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 90e6fa8..33c281c 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -36,6 +36,15 @@ from xylem.config_utils import config_from_parsed_yaml
 from xylem.config_utils import config_from_defaults
 
 
+def _hashable(value):
+    """Return hashable stand-in for value; equal for equal values."""
+    if isinstance(value, dict):
+        return frozenset((k, _hashable(v)) for k, v in value.items())
+    if isinstance(value, (list, tuple)):
+        return tuple(_hashable(v) for v in value)
+    return value
+
+
 class Resolution(dict):
 
     """Resolution object as a dictionary with attribute access.
@@ -50,17 +59,18 @@ class Resolution(dict):
     should be considered immutable.
     """
 
+    _to_list_keys = ["package"]
+
     def __init__(self, *args, **kwargs):
         super(Resolution, self).__init__(*args, **kwargs)
         self.__dict__ = self  # this allows attribute access: `self.package`
-        self._to_list_keys = ["package"]
 
     def __eq__(self, other):
         # use standard dict equality
         return super(Resolution, self).__eq__(other)
 
     def __hash__(self):
-        return hash((type(self), tuple(self.items())))
+        return hash(_hashable(self))
 
     def __str__(self):
         return ' '.join(self.to_list())
-- 
2.43.0


From 47771a6f3e42d3ced718bd12e0be63f8e2fed389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 20/59] fix: installers: let plugins accept the interactive
 argument when installing the package manager

---
 xylem/installers/plugins/apt.py      | 2 +-
 xylem/installers/plugins/homebrew.py | 2 +-
 xylem/installers/plugins/macports.py | 2 +-
 xylem/installers/plugins/pip.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xylem/installers/plugins/apt.py b/xylem/installers/plugins/apt.py
index 67fa757..a67b0ee 100644
--- a/xylem/installers/plugins/apt.py
+++ b/xylem/installers/plugins/apt.py
@@ -53,7 +53,7 @@ class AptInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: raise UserInterventionRequiredError with instructions,
         # handle this error specially and print instructions
         raise NotImplementedError()
diff --git a/xylem/installers/plugins/homebrew.py b/xylem/installers/plugins/homebrew.py
index 66c78f2..c4349ef 100644
--- a/xylem/installers/plugins/homebrew.py
+++ b/xylem/installers/plugins/homebrew.py
@@ -57,7 +57,7 @@ class HomebrewInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/macports.py b/xylem/installers/plugins/macports.py
index 5a302cb..6cebe6b 100644
--- a/xylem/installers/plugins/macports.py
+++ b/xylem/installers/plugins/macports.py
@@ -53,7 +53,7 @@ class MacportsInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 3ad68e8..32b4725 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -63,7 +63,7 @@ class PipInstaller(PackageManagerInstaller):
         installed = [row.split("==")[0] for row in installed]
         return [r for r in resolved if r.package not in installed]
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
         raise NotImplementedError()
 
-- 
2.43.0


From f620e8575800081c05d714944494b8a0088372f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 21/59] fix: installers: name the package manager in the
 out-of-date warning

---
 xylem/installers/package_manager_installer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 4ec7150..6903ff3 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -123,4 +123,4 @@ class PackageManagerInstaller(InstallerBase):
                 error("Installer plugin '{}' failed to update itself.".
                       format(self.name))
         warning("Package manager '{}' seems to be out-of-date. Please "
-                "consider updating for best results.")
+                "consider updating for best results.".format(self.name))
-- 
2.43.0


From 246d1f39a02e896053503c25680d1c000262e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 22/59] fix: install: do not fix prerequisites when simulating

---
 xylem/install.py                              | 4 ++++
 xylem/installers/package_manager_installer.py | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/xylem/install.py b/xylem/install.py
index 08fdfdf..f1471f2 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -75,6 +75,10 @@ def install(xylem_keys,
 
     resolved = _squash_resolutions(res_tuple for _, res_tuple in results)
 
+    # when simulating, do not actually fix unsatisfied prerequisites
+    if simulate and fix_prerequisites:
+        fix_prerequisites = "simulate"
+
     #  3. check general prerequisites for all installers
     check_general_prerequisites(_installer_names(resolved),
                                 installer_context,
diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 6903ff3..e0de0fe 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -19,6 +19,7 @@ from .impl import InstallerPrerequisiteError
 
 from xylem.util import is_program_installed
 
+from xylem.log_utils import info
 from xylem.log_utils import info_v
 from xylem.log_utils import warning
 from xylem.log_utils import error
@@ -73,6 +74,9 @@ class PackageManagerInstaller(InstallerBase):
             return
         info_v("Package manager '{}' not installed ('{}' not found).".
                format(self.name, self.executable_name))
+        if fix_unsatisfied == "simulate":
+            info("# [{0}] would try to install '{0}'".format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to install '{}'.".format(self.name))
             try:
@@ -110,6 +114,9 @@ class PackageManagerInstaller(InstallerBase):
             info_v("Package manager '{}' is updated.".format(self.name))
             return
         info_v("Package manager '{}' not updated.".format(self.name))
+        if fix_unsatisfied == "simulate":
+            info("# [{0}] would try to update '{0}'".format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to update '{}'.".format(self.name))
             try:
-- 
2.43.0


From 4a716093ccb7aed3efff1b2bc54b8e971079a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 23/59] fix: config utils: handle unset and invalid config
 groups

---
 xylem/config_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a7b3c15..bbeb56c 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1212,7 +1212,12 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-        data_group = data.get(group, {})
+        data_group = data.get(group, None)
+        if data_group == UNSET_YAML:
+            data_group = {}
+        if not isinstance(data_group, dict):
+            raise ConfigValueError(
+                type_error_msg('dict', data_group, what_for="config group"))
         for subname, item in six.iteritems(group_dict):
             process_item(config[group], data_group, subname, item)
     for name, item in six.iteritems(description.items):
-- 
2.43.0


From e35e005dec1da56a6d618fea9950f084b9533b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 24/59] fix: config utils: return the converted config dict

---
 xylem/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index bbeb56c..473034e 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -355,6 +355,7 @@ def ceorce_config_dict(config, copy=False):
     result = ConfigDict()
     for k, v in six.iteritems(config):
         result[k] = ceorce_config_dict(v, copy=copy)
+    return result
 
 
 def copy_to_dict(config):
-- 
2.43.0


From b1ce110feae43a4809aae25cbc90cc6f2351b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 25/59] fix: config utils: leave description unchanged when
 adding an item fails

---
 xylem/config_utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 473034e..0005d24 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -876,6 +876,16 @@ class ConfigDescription(object):
 
         item = ConfigItem(name, *args, **kwargs)
 
+        # check for conflicts before making any changes
+        if item.command_line:
+            arg_name = item.command_line_argument
+            if arg_name in self.command_line_arguments:
+                raise ConfigDescriptionError(
+                    "Duplicate command line argument name '{}' for config "
+                    "item '{}' and '{}'.".
+                    format(arg_name, item.name,
+                           self.command_line_arguments[arg_name].name))
+
         if "/" in name:
             group, subname = split_group(name)
             if group not in self.groups:
@@ -891,14 +901,7 @@ class ConfigDescription(object):
         self.items[name] = item
 
         if item.command_line:
-            arg_name = item.command_line_argument
-            if arg_name in self.command_line_arguments:
-                raise ConfigDescriptionError(
-                    "Duplicate command line argument name '{}' for config "
-                    "item '{}' and '{}'.".
-                    format(arg_name, item.name,
-                           self.command_line_arguments[arg_name].name))
-            self.command_line_arguments[arg_name] = item
+            self.command_line_arguments[item.command_line_argument] = item
 
     def add_arguments(self, parser):
         """Create a group and add all command-line-enabled items to it.
-- 
2.43.0


From 6fba25008daf823a9515c159d9386d4f48350758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 26/59] fix: config utils: do not share default values between
 configs

---
 xylem/config_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 0005d24..0d78466 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1136,9 +1136,9 @@ def config_from_defaults(description):
             group, subname = split_group(name)
             if group not in result:
                 result[group] = ConfigDict()
-            result[group][subname] = item.default
+            result[group][subname] = deepcopy(item.default)
         else:
-            result[name] = item.default
+            result[name] = deepcopy(item.default)
     return result
 
 
-- 
2.43.0


From 62aeb113f057b5d04762bfb1e3fd6c6980bb52c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 27/59] fix: commands: return the command parser

---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 2e3b342..33b295c 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -72,6 +72,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     command_defi['prepare_config'](get_config_description())
     add_config_arguments(parser)
     add_global_arguments(parser)
+    return parser
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From b3b18fafbcc40890d51e4264e1f83a35822be71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 28/59] fix: commands: respect global arguments given before
 the command

---
 xylem/commands/main.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 33b295c..19ae7cf 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -105,8 +105,15 @@ def create_subparsers(parser, cmds):
         command.""",
         dest='cmd'
     )
+    # do not let omitted arguments of the commands reset the values of
+    # the global arguments, which may also precede the command
+    global_dests = vars(parser.parse_args([]))
     for defi in defis:
-        create_command_parser(defi, subparser.add_parser, parser_title=True)
+        command_parser = create_command_parser(
+            defi, subparser.add_parser, parser_title=True)
+        for action in command_parser._actions:
+            if action.dest in global_dests:
+                action.default = argparse.SUPPRESS
 
 
 # FIXME: Merge with help message somehow and decide when to print
-- 
2.43.0


From 5fb95b3c4477febcecb320f4437566112d01ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 29/59] fix: commands: report a missing command as usage error

---
 xylem/commands/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 19ae7cf..611bd00 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -147,6 +147,10 @@ def main(sysargs=None):
     handle_global_arguments(args)
     handle_config_arguments(args)
 
+    if not hasattr(args, 'func'):
+        # python 3 does not consider the command to be required
+        parser.error("too few arguments")
+
     # FIXME: the following logic and error handling
     try:
         args.func
-- 
2.43.0


From c6e8fafe66d8b9d7e2c858f27f86a034875d6829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 30/59] fix: load url: handle failures while waiting for and
 reading the response

---
 xylem/load_url.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index d436558..8f34928 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -21,6 +21,7 @@ import time
 from six.moves.urllib.error import HTTPError
 from six.moves.urllib.error import URLError
 from six.moves.urllib.request import urlopen
+from six.moves.http_client import HTTPException
 import cgi
 
 from xylem.exception import raise_from
@@ -48,6 +49,7 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     while True:
         try:
             req = urlopen(url, timeout=timeout)
+            data = req.read()
         except HTTPError as e:
             if e.code == 503 and retry:
                 retry -= 1
@@ -62,9 +64,19 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except socket.timeout as e:
+            # timeout while waiting for or reading the response
+            if retry:
+                retry -= 1
+                time.sleep(retry_period)
+            else:
+                raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                           format(url), e)
+        except (EnvironmentError, HTTPException) as e:
+            raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                       format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    data = req.read()
     return to_str(data, encoding=encoding)
-- 
2.43.0


From 3ab82bd8a554fe5f03d57afeb5880647c08d8f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 31/59] fix: installers: treat unset entries of install_from
 and installer_options as empty

---
 xylem/installers/impl.py | 3 ++-
 xylem/resolve.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/impl.py b/xylem/installers/impl.py
index 2ab89df..832b1c7 100644
--- a/xylem/installers/impl.py
+++ b/xylem/installers/impl.py
@@ -398,7 +398,8 @@ class InstallerContext(object):
 
         #  1. Go through all installers and set options from config
         for inst in self.installer_plugins:
-            inst.options = self.config.installer_options.get(inst.name, {})
+            inst.options = \
+                self.config.installer_options.get(inst.name) or {}
 
         #  2. setup core installers from config or OS plugin
         if self.config.core_installers is not None:
diff --git a/xylem/resolve.py b/xylem/resolve.py
index f2a6716..11e04c0 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -72,7 +72,7 @@ def resolve(xylem_keys,
     #       `install-from "pip: python-*"`
     install_from_map = dict()
     for inst, keys in six.iteritems(config.install_from):
-        for k in keys:
+        for k in keys or []:
             if k in install_from_map:
                 error("ignoring 'install from {}' for key '{}'; "
                       "already configured to install from '{}'".
-- 
2.43.0


From 203e3c8e0a27ba844f087caa4f152712eb86684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 32/59] fix: commands: report configuration errors as message
 instead of traceback

---
 xylem/commands/main.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 611bd00..f3d4563 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -144,15 +144,14 @@ def main(sysargs=None):
     create_subparsers(parser, cmds)
 
     args = parser.parse_args(sysargs)
-    handle_global_arguments(args)
-    handle_config_arguments(args)
-
-    if not hasattr(args, 'func'):
-        # python 3 does not consider the command to be required
-        parser.error("too few arguments")
 
     # FIXME: the following logic and error handling
     try:
+        handle_global_arguments(args)
+        handle_config_arguments(args)
+        if not hasattr(args, 'func'):
+            # python 3 does not consider the command to be required
+            parser.error("too few arguments")
         args.func
         result = args.func(args)
     except XylemError as e:
-- 
2.43.0


From a0e365aaa9c825d71a123c714ab0fdc80f253878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 33/59] fix: database: treat damaged cache as outdated

---
 xylem/sources/database.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index b225c3b..9aee5be 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -160,7 +160,11 @@ class RulesSource(object):
     def is_cache_outdated(self):
         if not self.is_cache_available():
             return True
-        cache_data = _read_cache(self.cache_file_path())
+        try:
+            cache_data = _read_cache(self.cache_file_path())
+        except Exception:
+            # an unreadable or incomplete cache needs to be replaced
+            return True
         # here we could also check xylem version if needed in the future
         if self.spec.name != cache_data['spec_name']:
             return True
-- 
2.43.0


From d5bf8af99bbcda28ea5a7ac718737bed2cc40a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 34/59] fix: resolve: report keys with failing lookup instead
 of aborting

---
 xylem/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/resolve.py b/xylem/resolve.py
index 11e04c0..fc0a34b 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -91,7 +91,7 @@ def resolve(xylem_keys,
                     "could not find rule for xylem key '{}' on '{}'.".
                     format(key, ic.get_os_string()))))
                 continue
-        except LookupError as e:
+        except (LookupError, ValueError) as e:
             errors.append((key, chain_exception(
                 ResolutionError, "lookup for key '{}' failed".format(key), e)))
             continue
-- 
2.43.0


From 265a747844ba09e570f6ae12733647949953e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 35/59] Revert "fix: rules spec: raise SpecParsingError for
 invalid rules"

This reverts commit a3059e2d781dee91c7ba8c11cf0f77e5c6e0d3f7.
---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..620f4fe 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        super(SpecParsingError, self).__init__(msg)
+        ValueError.__init__(self, msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From c4b084acc2279990e428d13c712c7e60bc1f8c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 36/59] fix: report values YAML cannot construct as YAML errors

An invalid date in a config or rules file raised a bare ValueError, which
nobody expects from parsing.
---
 xylem/yaml_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index b917ed0..e96100f 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -24,6 +24,8 @@ from __future__ import unicode_literals
 
 import yaml
 
+from xylem.exception import raise_from
+
 
 def load_yaml(data):
     """Parse a unicode string containing yaml.
@@ -43,7 +45,11 @@ def load_yaml(data):
     MyLoader.add_constructor(
         'tag:yaml.org,2002:str', MyLoader.construct_yaml_str)
 
-    return yaml.load(data, Loader=MyLoader)
+    try:
+        return yaml.load(data, Loader=MyLoader)
+    except ValueError as e:
+        # e.g. for an invalid date
+        raise_from(yaml.YAMLError, "failed to construct value", e)
 
 
 def dump_yaml(data, inline=False):
-- 
2.43.0


From 7a4f36f8ce576c3713b1c1ea5d519f152c3a12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 37/59] fix: do not share values between merged configurations

---
 xylem/config_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 0d78466..f26a5e1 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1071,6 +1071,13 @@ def merge_configs(description, top, *more_configs):
             else:
                 result[name] = item.type.merge(result[name],
                                                bottom_config[name])
+    # do not share any (mutable) values with the merged configs
+    for name in description.items:
+        if "/" in name:
+            group, subname = split_group(name)
+            result[group][subname] = deepcopy(result[group][subname])
+        else:
+            result[name] = deepcopy(result[name])
     return result
 
 
-- 
2.43.0


From 42dc0f689b230f3488b15bbe6316fd815c562004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 38/59] fix: copies of a ConfigDict keep attribute access

---
 xylem/config_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index f26a5e1..d0d801e 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -336,6 +336,11 @@ class ConfigDict(dict):
         super(ConfigDict, self).__init__(*args, **kwargs)
         self.__dict__ = self
 
+    def __reduce__(self):
+        # (deep) copies are created through ``__init__`` such that they
+        # allow attribute access as well
+        return (type(self), (dict(self),))
+
 
 def ceorce_config_dict(config, copy=False):
     """Helper to convert a regular dictionary to a config dict.
-- 
2.43.0


From 11efa076d40b2bef2f7bc4f95172d55b44dea500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 39/59] fix: configuration data that is not a dictionary is a
 config error

---
 xylem/config_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index d0d801e..35d65fc 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1225,6 +1225,10 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
         value = item.type.from_yaml(value)
         target_dict[key] = value
 
+    if not isinstance(data, dict):
+        raise ConfigValueError(
+            type_error_msg('dict', data, what_for="config"))
+
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-- 
2.43.0


From 18a8ed3ad36b801dadf63d3108b84b4bfcade995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 40/59] fix: show tracebacks of causes for errors that were not
 raised themselves

---
 xylem/exception.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xylem/exception.py b/xylem/exception.py
index 718901f..eac95e5 100644
--- a/xylem/exception.py
+++ b/xylem/exception.py
@@ -86,6 +86,7 @@ def exc_to_str(exc, tb=False, limit=None, chain=True):
         formatted or all chained exceptions
     :return str: the exception formatted as one string
     """
+    with_tb = tb is not None and tb is not False
     if tb is True:
         if six.PY2:
             _, curr_exc, curr_tb = sys.exc_info()
@@ -102,12 +103,13 @@ def exc_to_str(exc, tb=False, limit=None, chain=True):
     result = []
     next_exc = exc
     next_tb = tb
-    while next_exc:
+    while next_exc is not None:
         result.insert(0, _format_no_chain(next_exc, next_tb, limit))
         next_exc = getattr(next_exc, '__cause__', None)
-        next_tb = tb and getattr(next_exc, '__traceback__', None)
+        next_tb = getattr(next_exc, '__traceback__', None) \
+            if with_tb else None
     cause_text = "The above error was the direct cause of the following:"
-    if tb:
+    if with_tb:
         link = "\n{}\n\n".format(cause_text)
     else:
         link = " --- {}\n".format(cause_text)
-- 
2.43.0


From 530e3c60d80c0167a4da94658811594ccd3af16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 41/59] fix: malformed URLs and unknown encodings are download
 failures

---
 xylem/load_url.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index 8f34928..e2bb6b0 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -72,11 +72,16 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
-        except (EnvironmentError, HTTPException) as e:
+        except (EnvironmentError, HTTPException, ValueError) as e:
+            # `ValueError` is raised for malformed URLs
             raise_from(DownloadFailure, "Failed to load url '{0}'.".
                        format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    return to_str(data, encoding=encoding)
+    try:
+        return to_str(data, encoding=encoding)
+    except LookupError as e:
+        raise_from(DownloadFailure, "Unknown encoding of url '{0}'.".
+                   format(url), e)
-- 
2.43.0


From 59498d9d5651d4c8f0ee18f07d178d0341fc7928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 42/59] fix: plugins that cannot be loaded or created do not
 prevent others from loading

---
 xylem/plugin_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 9259aa3..2018c36 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -151,7 +151,12 @@ def load_plugins(kind, base_class, group, disabled=[]):
     plugin_list = []
     name_set = set()
     for entry_point in pkg_resources.iter_entry_points(group=group):
-        definition = entry_point.load()
+        try:
+            definition = entry_point.load()
+        except Exception as e:
+            error("Skipping {} plugin. Failed to load entry point with name "
+                  "'{}':\n{}".format(kind, entry_point.name, exc_to_str(e)))
+            continue
         try:
             verify_plugin_definition(definition, kind, base_class)
         except InvalidPluginError as e:
@@ -166,11 +171,11 @@ def load_plugins(kind, base_class, group, disabled=[]):
                    format(kind, plugin_name))
             continue
         plugin_class = definition[kind]
-        plugin_obj = plugin_class()
-        obj_name = plugin_obj.name
         try:
+            plugin_obj = plugin_class()
+            obj_name = plugin_obj.name
             plugin_class.verify_plugin(plugin_obj)
-        except InvalidPluginError as e:
+        except Exception as e:
             # TODO: somehow decide when to reraise and when to display error
             error("Skipping {} plugin '{}'. Plugin is invalid:\n{}".format(
                   kind, plugin_name, exc_to_str(e)))
-- 
2.43.0


From a2bb7dd243eaad34c30e122bfe5711ee458666a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:43 +0000
Subject: [PATCH 43/59] fix: os detect: use detector with highest precedence
 and do not share list of detectors

---
 xylem/os_support/os_detect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index c0ede3a..63038f3 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -395,7 +395,7 @@ class OsDetect(object):
     def __init__(self, os_list = None):
         if os_list is None:
             os_list = OsDetect.default_os_list
-        self._os_list = os_list
+        self._os_list = list(os_list)
         self._os_name = None
         self._os_version = None
         self._os_codename = None
@@ -444,6 +444,7 @@ class OsDetect(object):
                     self._os_version = os_detector.get_version()
                     self._os_codename = os_detector.get_codename()
                     self._os_detector = os_detector
+                    break
 
         if self._os_name:
             return self._os_name, self._os_version, self._os_codename
-- 
2.43.0


From 764de86e08dced45c36c69d0f670d598fc982e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 44/59] fix: os detect: report incomplete release information
 as OsNotDetected

---
 xylem/os_support/os_detect.py | 59 +++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 63038f3..ca0528a 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -51,6 +51,28 @@ def uname_get_machine():
     """
     return _read_stdout(['uname', '-m'])
 
+def _word_after(words, key):
+    """
+    :returns: the word following the first occurence of *key*
+    :raises: :exc:`OsNotDetected` if there is none
+    """
+    if words and key in words[:-1]:
+        return words[words.index(key) + 1]
+    raise OsNotDetected("did not find word after '%s'" % key)
+
+def _codename_in_parens(words):
+    """
+    :returns: lower-case first word that starts with a parenthesis
+    :raises: :exc:`OsNotDetected` if there is none
+    """
+    for word in words:
+        if word[0] == '(':
+            codename = word[1:]
+            if codename.endswith(')'):
+                codename = codename[:-1]
+            return codename.lower()
+    raise OsNotDetected('did not find codename')
+
 def read_issue(filename="/etc/issue"):
     """
     :returns: list of strings in issue file, or None if issue file cannot be read/split
@@ -137,7 +159,7 @@ class OpenSuse(OsDetector):
                 os_list = fh.read().strip().split('\n')
                 if len(os_list) == 2:
                     os_list = os_list[1].split(' = ')
-                    if os_list[0] == "VERSION":
+                    if os_list[0] == "VERSION" and len(os_list) > 1:
                         return os_list[1]
         raise OsNotDetected('cannot get version on this OS')
 
@@ -147,7 +169,7 @@ class OpenSuse(OsDetector):
                 os_list = fh.read().strip().split('\n')
                 for line in os_list:
                    kv = line.split(' = ')
-                   if kv[0] == "CODENAME":
+                   if kv[0] == "CODENAME" and len(kv) > 1:
                      return kv[1]
         raise OsNotDetected('called in incorrect OS')
 
@@ -166,20 +188,13 @@ class Fedora(OsDetector):
     def get_version(self):
         if self.is_os():
             os_list = read_issue(self._issue_file)
-            idx = os_list.index('release')
-            if idx > 0:
-                return os_list[idx+1]
+            return _word_after(os_list, 'release')
         raise OsNotDetected('cannot get version on this OS')
 
     def get_codename(self):
         if self.is_os():
             os_list = read_issue(self._release_file)
-            idx = os_list.index('release')
-            matches = [x for x in os_list if x[0] == '(']
-            codename = matches[0][1:]
-            if codename[-1] == ')':
-                codename = codename[:-1]
-            return codename.lower()
+            return _codename_in_parens(os_list)
         raise OsNotDetected('called in incorrect OS')
 
 class Rhel(Fedora):
@@ -196,20 +211,14 @@ class Rhel(Fedora):
     def get_version(self):
         if self.is_os():
             os_list = read_issue(self._release_file)
-            idx = os_list.index('release')
-            return os_list[idx+1]
+            return _word_after(os_list, 'release')
         raise OsNotDetected('called in incorrect OS')
 
     def get_codename(self):
         # taroon, nahant, tikanga, santiago, pensacola
         if self.is_os():
             os_list = read_issue(self._release_file)
-            idx = os_list.index('release')
-            matches = [x for x in os_list if x[0] == '(']
-            codename = matches[0][1:]
-            if codename[-1] == ')':
-                codename = codename[:-1]
-            return codename.lower()
+            return _codename_in_parens(os_list)
         raise OsNotDetected('called in incorrect OS')
 
 # Source: http://en.wikipedia.org/wiki/Mac_OS_X#Versions
@@ -248,7 +257,9 @@ class OSX(OsDetector):
 
     def get_version(self):
         if self.is_os():
-            return _read_stdout([self._sw_vers_file,'-productVersion'])
+            version = _read_stdout([self._sw_vers_file,'-productVersion'])
+            if version:
+                return version
         raise OsNotDetected('called in incorrect OS')
 
 
@@ -268,7 +279,7 @@ class QNX(OsDetector):
     def is_os(self):
         if os.path.exists(self._uname_file):
             std_out = _read_stdout([self._uname_file])
-            return std_out.strip() == self._os_name_qnx
+            return std_out == self._os_name_qnx
         else:
             return False
 
@@ -329,12 +340,12 @@ class Gentoo(OsDetector):
 
     def is_os(self):
         os_list = read_issue(self._release_file)
-        return os_list and os_list[0] == "Gentoo" and os_list[1] == "Base"
+        return os_list and os_list[:2] == ["Gentoo", "Base"]
 
     def get_version(self):
         if self.is_os():
             os_list = read_issue(self._release_file)
-            if os_list[0] == "Gentoo" and os_list[1] == "Base":
+            if len(os_list) > 4:
                 return os_list[4]
         raise OsNotDetected('called in incorrect OS')
 
@@ -353,7 +364,7 @@ class FreeBSD(OsDetector):
     def is_os(self):
         if os.path.exists(self._uname_file):
             std_out = _read_stdout([self._uname_file])
-            return std_out.strip() == "FreeBSD"
+            return std_out == "FreeBSD"
         else:
             return False
 
-- 
2.43.0


From 5e897f34d2ac4c67fffd7fb8f605a6084126e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 45/59] fix: yaml: report every value that cannot be
 constructed as YAML error

---
 xylem/yaml_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index e96100f..667e81f 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -47,8 +47,8 @@ def load_yaml(data):
 
     try:
         return yaml.load(data, Loader=MyLoader)
-    except ValueError as e:
-        # e.g. for an invalid date
+    except (ValueError, TypeError, LookupError, AttributeError) as e:
+        # e.g. for an invalid date, or text with a tag it is not valid for
         raise_from(yaml.YAMLError, "failed to construct value", e)
 
 
-- 
2.43.0


From f77662a6d257c73e7be6867a5bf7465ad43e5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 46/59] fix: --no-color also applies to tracebacks

---
 xylem/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xylem/util.py b/xylem/util.py
index d55c77d..e0acf61 100644
--- a/xylem/util.py
+++ b/xylem/util.py
@@ -30,6 +30,7 @@ import subprocess
 from six import StringIO
 
 from xylem.text_utils import to_str
+from xylem.terminal_color import ansi
 from xylem.exception import exc_to_str
 
 
@@ -105,8 +106,10 @@ def print_exc(exc_str):
         from pygments.lexers import PythonTracebackLexer
         from pygments.formatters import TerminalFormatter
 
-        exc_str = highlight(exc_str, PythonTracebackLexer(),
-                            TerminalFormatter())
+        if ansi('reset'):
+            # colors are not disabled
+            exc_str = highlight(exc_str, PythonTracebackLexer(),
+                                TerminalFormatter())
     except ImportError:
         pass
     print(exc_str, file=sys.stderr)
-- 
2.43.0


From 54b6bfdbd14da657280a6f5dae843b34cf540479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 47/59] fix: terminal_color: sanitized text is kept when colors
 are disabled

---
 xylem/terminal_color.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/terminal_color.py b/xylem/terminal_color.py
index c883ba2..b7b327e 100644
--- a/xylem/terminal_color.py
+++ b/xylem/terminal_color.py
@@ -88,7 +88,9 @@ def disable_ANSI_colors():
     """
     global _ansi
     for key in _ansi:
-        _ansi[key] = ''
+        if not key.startswith('at'):
+            # the fmt sanitizers stand for text, not for colors
+            _ansi[key] = ''
 
 # Default to ansi colors on
 enable_ANSI_colors()
-- 
2.43.0


From 7fb81a60344bb488992db9d34fc43df78cfc45bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 48/59] fix: commands: skip commands that cannot be loaded or
 are incomplete

---
 xylem/commands/main.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index f3d4563..ea61aac 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -53,11 +53,22 @@ def list_commands():
 def load_command_definition(command_name):
     for entry_point in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP):
         if entry_point.name == command_name:
-            defi = entry_point.load()
+            try:
+                defi = entry_point.load()
+            except Exception as e:
+                error("Failed to load entry point: '{0}':\n{1}"
+                      .format(entry_point, exc_to_str(e)))
+                return None
             if not isinstance(defi, dict):
                 error("Invalid entry point: '{0}', expected dict got '{1}'"
                       .format(entry_point, type_name(defi)))
                 return None
+            for key in ['title', 'description', 'main', 'prepare_arguments',
+                        'prepare_config']:
+                if key not in defi:
+                    error("Invalid entry point: '{0}', definition has no '{1}'"
+                          .format(entry_point, key))
+                    return None
             return defi
 
 
-- 
2.43.0


From 668b8e78641887d8bc1295f56c32d5392a463cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 49/59] fix: commands: two plugins with the same command name
 do not break all commands

---
 xylem/commands/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index ea61aac..55e764b 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -46,7 +46,8 @@ XYLEM_CMDS_GROUP = 'xylem.commands'
 def list_commands():
     commands = []
     for entry_point in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP):
-        commands.append(entry_point.name)
+        if entry_point.name not in commands:
+            commands.append(entry_point.name)
     return commands
 
 
-- 
2.43.0


From ba4afbb8185b95be074832eadaccde359dd8ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 50/59] fix: config: items added by one command do not break
 the other commands

---
 xylem/config_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 35d65fc..a607dcd 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1172,8 +1172,10 @@ def config_from_args(args, description):
 
     def process_item(target_dict, key, item):
         if item.command_line:
+            # items that other commands have added have no argument
             value = item.type.from_command_line(
-                args_dict[underscorify(item.command_line_argument)])
+                args_dict.get(underscorify(item.command_line_argument),
+                              UNSET_COMMAND_LINE))
         else:
             value = item.type.unset_value()
         target_dict[key] = value
-- 
2.43.0


From 6d1fbd723eaedfcef9f394b5937cf6a0bcab001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:34 +0000
Subject: [PATCH 51/59] fix: update and lookup accept plain dict configs, as
 documented

---
 xylem/lookup.py | 5 ++---
 xylem/update.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index 7fc013e..0030619 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -18,14 +18,13 @@ from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 from xylem.installers import InstallerContext
 from xylem.specs.plugins.rules import compact_installer_dict
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 def lookup(xylem_key, compact=False, config=None, sources_context=None,
            installer_context=None):
 
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
 
     sources_context = sources_context or SourcesContext(config)
     ic = installer_context or InstallerContext(config)
diff --git a/xylem/update.py b/xylem/update.py
index cf4bf3d..2319c12 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -21,7 +21,7 @@ from __future__ import unicode_literals
 from xylem.sources import SourcesContext
 from xylem.sources import RulesDatabase
 
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 # TODO: remove handle_spec_urls (move some logic into the accoring
@@ -75,8 +75,7 @@ def update(dry_run=False, config=None, sources_context=None):
         context from ``config`` is created
     :type sources_context: `SourcesContext` or `None`
     """
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
     sources_context = sources_context or SourcesContext(config)
     if not dry_run:
         sources_context.ensure_cache_dir()
-- 
2.43.0


From 2738c2342b1d92024f6602f08757af35d049ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 52/59] fix: config: a default value with '%' does not break
 the help

---
 xylem/config_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a607dcd..a824b36 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -815,7 +815,8 @@ class ConfigItem(object):
         info += ["type: {}".format(type_name(self.type))]
         if self.default != self.type.unset_value():
             info.append("default: {}".format(self.default))
-        help += "(" + ", ".join(info) + ")"
+        # argparse %-formats help strings
+        help += "(" + ", ".join(info).replace("%", "%%") + ")"
         return help
 
     def add_argument(self, parser):
-- 
2.43.0


From e4e5f1624ee57509dec7ff2d2c5421a896b90b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:07 +0000
Subject: [PATCH 53/59] fix: source files are read as UTF-8 whatever the locale
 is

---
 xylem/sources/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 729caf6..1470bd9 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -107,7 +107,7 @@ def parse_source_file(file_path):
     :returns: lists of source urls keyed by spec type
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
-    with open(file_path, 'r') as f:
+    with open(file_path, 'rb') as f:
         data = f.read()
         return parse_source_descriptions(to_str(data), file_path)
 
-- 
2.43.0


From 7db4f0d7c50b4b677204a64e2d9cc22259834a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:04 +0000
Subject: [PATCH 54/59] fix: updates that start at the same time may both
 create the cache directory

---
 xylem/sources/impl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 1470bd9..c0dd4b8 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -219,7 +219,12 @@ class SourcesContext(object):
 
     def ensure_cache_dir(self):
         if not self.cache_dir_exists():
-            os.makedirs(self.cache_dir)
+            try:
+                os.makedirs(self.cache_dir)
+            except OSError:
+                # somebody else may have created it in the meantime
+                if not self.cache_dir_exists():
+                    raise
         if not self.cache_dir_exists():
             raise OSError("Could not create cache dir: `{}`".
                           format(self.cache_dir))
-- 
2.43.0


From 8eb0d143b17efa9ce6dc8428cc6184e0dc390596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:43 +0000
Subject: [PATCH 55/59] fix: a command that cannot be set up, or whose title is
 taken, does not break the others

---
 xylem/commands/main.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 55e764b..61f4489 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -108,11 +108,8 @@ def create_subparsers(parser, cmds):
         defis.append(defi)
     if not defis or not cmds:
         return
-    public_cmds = [c for c in cmds if not c.startswith("_")]
-    metavar = '[' + ' | '.join(public_cmds) + ']'
     subparser = parser.add_subparsers(
         title='commands',
-        metavar=metavar,
         description="""Call `xylem <command> -h` for help on a specific
         command.""",
         dest='cmd'
@@ -120,12 +117,26 @@ def create_subparsers(parser, cmds):
     # do not let omitted arguments of the commands reset the values of
     # the global arguments, which may also precede the command
     global_dests = vars(parser.parse_args([]))
+    titles = []
     for defi in defis:
-        command_parser = create_command_parser(
-            defi, subparser.add_parser, parser_title=True)
+        title = str(defi['title'])
+        if title in titles:
+            error("skipping command with duplicate title '{0}'".format(title))
+            continue
+        try:
+            command_parser = create_command_parser(
+                defi, subparser.add_parser, parser_title=True)
+        except Exception as e:
+            error("skipping invalid command '{0}':\n{1}".
+                  format(title, exc_to_str(e)))
+            subparser.choices.pop(title, None)
+            continue
+        titles.append(title)
         for action in command_parser._actions:
             if action.dest in global_dests:
                 action.default = argparse.SUPPRESS
+    public_titles = [t for t in titles if not t.startswith("_")]
+    subparser.metavar = '[' + ' | '.join(public_titles) + ']'
 
 
 # FIXME: Merge with help message somehow and decide when to print
-- 
2.43.0


From 26d4d903b9d9d8dedfba61caa57960aec163bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:17 +0000
Subject: [PATCH 56/59] fix: tell configuration items with similar command line
 arguments apart

The value of an argument whose name contains a slash was ignored, and the
value of an argument also set the item of another one whose name differs
only in dashes and underscores.
---
 xylem/config_utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a824b36..d93bcd4 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -825,6 +825,8 @@ class ConfigItem(object):
         kwargs = {}
         kwargs["help"] = self.help_string()
         kwargs["default"] = UNSET_COMMAND_LINE
+        # where `config_from_args` looks for the value
+        kwargs["dest"] = underscorify(self.command_line_argument)
         if self.type.command_line_multiple():
             kwargs["action"] = "append"
         if self.command_line_metavar is not None:
@@ -884,13 +886,14 @@ class ConfigDescription(object):
 
         # check for conflicts before making any changes
         if item.command_line:
-            arg_name = item.command_line_argument
-            if arg_name in self.command_line_arguments:
-                raise ConfigDescriptionError(
-                    "Duplicate command line argument name '{}' for config "
-                    "item '{}' and '{}'.".
-                    format(arg_name, item.name,
-                           self.command_line_arguments[arg_name].name))
+            for arg_name, other in six.iteritems(self.command_line_arguments):
+                # compare how the parsed arguments are stored
+                if underscorify(arg_name) == \
+                        underscorify(item.command_line_argument):
+                    raise ConfigDescriptionError(
+                        "Duplicate command line argument name '{}' for config "
+                        "item '{}' and '{}'.".
+                        format(arg_name, item.name, other.name))
 
         if "/" in name:
             group, subname = split_group(name)
-- 
2.43.0


From 47fc6ed09f1289fffa327eca95d79f7e0df8e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:18 +0000
Subject: [PATCH 57/59] fix: do not fail to detect the OS on release files that
 cannot be read

---
 xylem/os_support/os_detect.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index ca0528a..277d154 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -77,9 +77,12 @@ def read_issue(filename="/etc/issue"):
     """
     :returns: list of strings in issue file, or None if issue file cannot be read/split
     """
-    if os.path.exists(filename):
-        with codecs.open(filename, 'r', encoding=locale.getpreferredencoding()) as f:
-            return f.read().split()
+    try:
+        if os.path.exists(filename):
+            with codecs.open(filename, 'r', encoding=locale.getpreferredencoding()) as f:
+                return f.read().split()
+    except (IOError, OSError, UnicodeError):
+        pass
     return None
 
 class OsNotDetected(Exception):
@@ -164,7 +167,7 @@ class OpenSuse(OsDetector):
         raise OsNotDetected('cannot get version on this OS')
 
     def get_codename(self):
-        if self.is_os() and os.path.exists(self._release_file):
+        if self.is_os() and read_issue(self._release_file):
             with open(self._release_file, 'r') as fh:
                 os_list = fh.read().strip().split('\n')
                 for line in os_list:
-- 
2.43.0


From cc2114c83f0c723516a93c817d39d7901c5f778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:20 +0000
Subject: [PATCH 58/59] fix: report invalid or repeated sources as an error
 instead of a traceback

---
 xylem/sources/database.py | 11 ++++++++---
 xylem/sources/impl.py     |  5 +++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 9aee5be..9cd3f2c 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -23,6 +23,7 @@ import uuid
 import six.moves.cPickle as pickle
 
 from xylem import __version__
+from xylem.exception import raise_from
 from xylem.log_utils import error
 from xylem.log_utils import warning
 from xylem.log_utils import info
@@ -30,6 +31,7 @@ from xylem.log_utils import is_verbose
 from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
+from .impl import InvalidSourcesError
 from xylem.text_utils import to_bytes
 from xylem.text_utils import to_str
 from xylem.sources.rules_dict import verify_installer_dict
@@ -207,7 +209,11 @@ class RulesDatabase(object):
     def __init__(self, sources_context):
         self.sources_context = sources_context
         self.sources = None  # Note: assuming those have unique ids
-        self.init_from_sources()
+        try:
+            self.init_from_sources()
+        except ValueError as e:
+            raise_from(InvalidSourcesError, "invalid source descriptions in "
+                       "'{0}'".format(sources_context.sources_dir), e)
         self.print_info = False
         self.raise_on_error = True
 
@@ -239,8 +245,7 @@ class RulesDatabase(object):
     def verify_unique_ids(self):
         ids = [_id_string(s.unique_id()) for s in self.sources]
         if not len(ids) == len(set(ids)):
-            # TODO: use custom Exception type
-            raise RuntimeError(
+            raise InvalidSourcesError(
                 "Source ids in rules database are not unique: {0}".format(ids))
 
     def load_from_cache(self):
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index c0dd4b8..c12f7b2 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -194,6 +194,11 @@ class UnknownSpecError(XylemError):
     pass
 
 
+class InvalidSourcesError(XylemError):
+
+    pass
+
+
 # TODO: Should plugins be registered globally (singleton) instead of
 # these context objects? How are they supposed to register with the
 # argument parser. Maybe extra kind of plugin for augmenting the
-- 
2.43.0


From 1dc9bcb4794842b7765582e8a3027c272c546650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:29 +0000
Subject: [PATCH 59/59] fix: verbose messages go to the file given, also if it
 counts as false

---
 xylem/log_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index 88a94ff..aa3d0a8 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -133,7 +133,8 @@ def info_v(msg, file=None, *args, **kwargs):
 
     Prints to stderr by default.
     """
+    file = file if file is not None else sys.stderr
     if is_verbose():
-        return info(msg, file=(file or sys.stderr), *args, **kwargs)
+        return info(msg, file=file, *args, **kwargs)
     else:
         return None
-- 
2.43.0

