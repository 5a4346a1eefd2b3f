From 55ec4762ceda17c1c0aff1b3c51bea393cae8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 01/31] fix: keep plugin query results of different
 interpreters apart

---
 variantlib/plugins/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b87987e..1db3a07 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -96,7 +96,9 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash((_plugin_apis, _commands, _args))
+        cache_key = hash(
+            (str(self._python_executable), _plugin_apis, _commands, _args)
+        )
 
         with suppress(KeyError):
             return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
-- 
2.43.0


From 6c705d2a5c19ede2528b3d34da4e43827d618889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 02/31] fix: do not append the null variant to the caller's
 list

---
 variantlib/resolver/lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index f966d22..df8577e 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -229,7 +229,8 @@ def sort_and_filter_supported_variants(
         #
         # This can be used to provide a different default build when using
         # a variant-enabled installer.
-        vdescs.append(null_variant)
+        # Avoiding modification in place
+        vdescs = [*vdescs, null_variant]
 
     if supported_vprops is None:
         """No supported properties provided, return no variants."""
-- 
2.43.0


From b9b343fd91bd2deff58a355bf26c83f927592009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 03/31] fix: verify merged variant data before modifying the
 index

---
 variantlib/variants_json.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 363eeb5..ddc3890 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,8 +112,13 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Merge the variant properties
-        self.variants.update(variant_dist_info.variants)
+        # Verify that no label would change its meaning
+        for label, vdesc in variant_dist_info.variants.items():
+            if self.variants.get(label, vdesc) != vdesc:
+                raise ValidationError(
+                    f"Inconsistency in variant {label!r} when merging variants. "
+                    f"Expected: {self.variants[label]!r}, found {vdesc!r}"
+                )
 
         # Verify consistency of default priorities
         for attribute in (
@@ -154,6 +159,9 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Merge the variant properties once everything has been verified
+        self.variants.update(variant_dist_info.variants)
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         return {
             namespace
-- 
2.43.0


From fc3704d91898e5ba825e6c13c48108004748cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 04/31] fix: reject merging variants with inconsistent static
 properties

---
 variantlib/variants_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index ddc3890..181bdb7 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -120,11 +120,12 @@ class VariantsJson(VariantInfo):
                     f"Expected: {self.variants[label]!r}, found {vdesc!r}"
                 )
 
-        # Verify consistency of default priorities
+        # Verify consistency of default priorities and static properties
         for attribute in (
             "namespace_priorities",
             "feature_priorities",
             "property_priorities",
+            "static_properties",
         ):
             new_value = getattr(variant_dist_info, attribute)
             old_value = getattr(self, attribute)
-- 
2.43.0


From ce3afb3dc1ada0a71c3967ab3c3461a9c4d3be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 05/31] fix: consider ABI dependencies when checking whether a
 variant is supported

---
 variantlib/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/variantlib/api.py b/variantlib/api.py
index d1f887a..183242c 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -22,6 +22,7 @@ from variantlib.models.variant import VariantValidationResult
 from variantlib.models.variant_info import VariantInfo
 from variantlib.plugins.loader import PluginLoader
 from variantlib.resolver.lib import filter_variants
+from variantlib.resolver.lib import inject_abi_dependency
 from variantlib.resolver.lib import sort_and_filter_supported_variants
 from variantlib.utils import aggregate_feature_priorities
 from variantlib.utils import aggregate_namespace_priorities
@@ -314,6 +315,8 @@ def check_variant_supported(
             )
         )
 
+    inject_abi_dependency(supported_vprops, [])
+
     VariantConfiguration.get_config()
 
     return bool(
-- 
2.43.0


From 4e57da32ff3603da505a48fa05c0b90046c2877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 06/31] fix: ignore malformed ABI dependency versions instead
 of failing resolution

---
 variantlib/resolver/lib.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index df8577e..f5ffa98 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -6,8 +6,10 @@ import os
 from typing import TYPE_CHECKING
 
 from packaging.utils import canonicalize_name
+from packaging.version import InvalidVersion
 from packaging.version import Version
 
+from variantlib.constants import VALIDATION_FEATURE_NAME_REGEX
 from variantlib.constants import VARIANT_ABI_DEPENDENCY_NAMESPACE
 from variantlib.models.variant import VariantDescription
 from variantlib.models.variant import VariantFeature
@@ -35,6 +37,20 @@ def _normalize_package_name(name: str) -> str:
     return canonicalize_name(name).replace("-", "_")
 
 
+def _is_valid_package(name: str | None, version: str | None) -> bool:
+    """Can the package be expressed as an abi_dependency property?"""
+    if name is None or version is None:
+        return False
+    try:
+        Version(version)
+    except InvalidVersion:
+        return False
+    return (
+        VALIDATION_FEATURE_NAME_REGEX.fullmatch(_normalize_package_name(name))
+        is not None
+    )
+
+
 def _generate_version_matches(version: str) -> Generator[str]:
     vspec = Version(version)
     yield f"{vspec.major}"
@@ -128,10 +144,16 @@ def inject_abi_dependency(
     """Inject supported vairants for the abi_dependency namespace"""
 
     # 1. Automatically populate from the current python environment
-    packages = {
-        _normalize_package_name(dist.name): dist.version
-        for dist in importlib.metadata.distributions()
-    }
+    packages: dict[str, str] = {}
+    for dist in importlib.metadata.distributions():
+        if not _is_valid_package(dist.name, dist.version):
+            logger.warning(
+                "Ignoring installed package with invalid metadata: "
+                "`%(pkg_name)s` version `%(pkg_ver)s`",
+                {"pkg_name": dist.name, "pkg_ver": dist.version},
+            )
+            continue
+        packages[_normalize_package_name(dist.name)] = dist.version
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
@@ -139,6 +161,8 @@ def inject_abi_dependency(
         for pkg_spec in variant_abi_deps_env.split(","):
             try:
                 pkg_name, pkg_version = pkg_spec.split("==", maxsplit=1)
+                if not _is_valid_package(pkg_name, pkg_version):
+                    raise ValueError(pkg_spec)
             except ValueError:
                 logger.warning(
                     "`VARIANT_ABI_DEPENDENCY` received an invalid value "
-- 
2.43.0


From 23d90a1793342fda33a94a72cf2abb78c1d410cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 07/31] fix: use the importable version of packages found more
 than once

---
 variantlib/resolver/lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index f5ffa98..94bdd90 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -153,7 +153,8 @@ def inject_abi_dependency(
                 {"pkg_name": dist.name, "pkg_ver": dist.version},
             )
             continue
-        packages[_normalize_package_name(dist.name)] = dist.version
+        # the first distribution found is the one that would be imported
+        packages.setdefault(_normalize_package_name(dist.name), dist.version)
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
-- 
2.43.0


From d545a8907a442013d9a68493140b6bdca4a7f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 08/31] fix: apply value priorities to features whose values
 are not listed together

---
 variantlib/resolver/sorting.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/variantlib/resolver/sorting.py b/variantlib/resolver/sorting.py
index 1de41d8..422e865 100644
--- a/variantlib/resolver/sorting.py
+++ b/variantlib/resolver/sorting.py
@@ -139,12 +139,20 @@ def sort_variant_properties(
         vprops, key=lambda x: get_namespace_priorities(x, namespace_priorities)
     )
 
-    # 2. Reorder properties within a namespace according to feature priorities.
+    # 2. Reorder properties within a namespace according to feature priorities,
+    #    keeping the properties of every feature together.
+    feature_order: dict[tuple[VariantNamespace, VariantFeatureName], int] = {}
+    for vprop in vprops:
+        feature_order.setdefault((vprop.namespace, vprop.feature), len(feature_order))
+
     sorted_by_feature = chain.from_iterable(
         [
             sorted(
                 namespace_properties,
-                key=lambda x: get_feature_priorities(x, feature_priorities),
+                key=lambda x: (
+                    get_feature_priorities(x, feature_priorities),
+                    feature_order[(x.namespace, x.feature)],
+                ),
             )
             for _, namespace_properties in groupby(
                 sorted_by_namespace, key=lambda x: x.namespace
-- 
2.43.0


From b11fd0bce9e06bedfcb88507c1784d716e46bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 09/31] fix: do not confuse variants with colliding hashes

---
 variantlib/api.py                | 8 +++++---
 variantlib/resolver/filtering.py | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/variantlib/api.py b/variantlib/api.py
index 183242c..6a7b7a8 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -79,14 +79,16 @@ def get_variants_by_priority(
         )
 
     config = VariantConfiguration.get_config()
+    # note: the hash is too short to be used as a key
     label_map = {
-        vdesc.hexdigest: label for label, vdesc in variants_json.variants.items()
+        tuple(vdesc.properties): label
+        for label, vdesc in variants_json.variants.items()
     }
     # handle the implicit null variant
-    label_map.setdefault(VariantDescription([]).hexdigest, NULL_VARIANT_LABEL)
+    label_map.setdefault((), NULL_VARIANT_LABEL)
 
     return [
-        label_map[vdesc.hexdigest]
+        label_map[tuple(vdesc.properties)]
         for vdesc in sort_and_filter_supported_variants(
             list(variants_json.variants.values()),
             supported_vprops,
diff --git a/variantlib/resolver/filtering.py b/variantlib/resolver/filtering.py
index da77def..5d6549f 100644
--- a/variantlib/resolver/filtering.py
+++ b/variantlib/resolver/filtering.py
@@ -34,14 +34,15 @@ def remove_duplicates(
         """
         validate_type(vdesc, VariantDescription)
 
-        if vdesc.hexdigest in seen:
+        # note: the hash is too short to be used as a key
+        if (key := tuple(vdesc.properties)) in seen:
             logger.info(
                 "Variant `%(vhash)s` has been removed because it is a duplicate",
                 {"vhash": vdesc.hexdigest},
             )
             return False
 
-        seen.add(vdesc.hexdigest)
+        seen.add(key)
         return True
 
     yield from filter(_should_include, vdescs)
-- 
2.43.0


From cc62e1c4baf9c7008f5b449674fd803c55348682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 10/31] fix: accept RECORD files with quoted paths, blank lines
 or no final newline

---
 variantlib/commands/make_variant.py   | 6 ++++--
 variantlib/commands/unmake_variant.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e753993..eabb022 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -264,8 +264,10 @@ def _make_variant(
                     # Update RECORD for the new checksums.
                     with output_zip.open(file_info, "w") as output_file:
                         for line in input_file:
-                            new_line = line
-                            rec_filename, _sha256, _size = line.split(b",")
+                            # the last line may lack a newline
+                            new_line = line if line.endswith(b"\n") else line + b"\n"
+                            # note: only the (possibly quoted) path is needed here
+                            rec_filename = line.split(b",", 1)[0].strip(b'"')
                             # Skip existing hash for the discarded copy.
                             if rec_filename.decode("utf-8") == dist_info_path:
                                 continue
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 5a85984..97985d1 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -110,7 +110,8 @@ def _unmake_variant(
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
                     ).encode()
                     for line in input_file:
-                        rec_filename, _sha256, _size = line.split(b",")
+                        # note: only the (possibly quoted) path is needed here
+                        rec_filename = line.split(b",", 1)[0].strip(b'"')
                         if rec_filename != variant_dist_info_path:
                             output_file.write(line)
                 else:
-- 
2.43.0


From 41476b1675ff2d18f9c7a7a8095fd3aaaf7fbee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 11/31] fix: query AoT providers of make-variant in the
 isolated environment

---
 variantlib/commands/make_variant.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index eabb022..15a7f2b 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -168,6 +168,8 @@ def _make_variant(
     if wheel_info is None:
         raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")
 
+    dist_info_data: str | None = None
+
     if not is_null_variant:
         # Transform properties into a VariantDescription
         vdesc = VariantDescription(properties=properties)
@@ -227,11 +229,25 @@ def _make_variant(
                         "The following variant properties use namespaces that are not "
                         f"provided by any installed plugin: {unknown_str}"
                     )
+
+                # AoT providers may be available only in this environment
+                dist_info_data = make_variant_dist_info(
+                    vdesc,
+                    variant_info=variant_info,
+                    variant_label=variant_label,
+                    venv_python_executable=venv.python_executable
+                    if venv is not None
+                    else None,
+                )
     else:
         # Create a null variant
         vdesc = VariantDescription()
 
     variant_label = get_variant_label(vdesc, variant_label)
+    if dist_info_data is None:
+        dist_info_data = make_variant_dist_info(
+            vdesc, variant_info=variant_info, variant_label=variant_label
+        )
 
     # Determine output wheel filename
     output_filepath = (
@@ -256,9 +272,6 @@ def _make_variant(
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    dist_info_data = make_variant_dist_info(
-                        vdesc, variant_info=variant_info, variant_label=variant_label
-                    )
                     output_zip.writestr(dist_info_path, dist_info_data)
 
                     # Update RECORD for the new checksums.
-- 
2.43.0


From 7ddafb96457942e178aaab7a56076b67a3d3701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 12/31] fix: make-variant must reject multiple values of
 single-value features

---
 variantlib/commands/make_variant.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 15a7f2b..7fb7bca 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -221,6 +221,14 @@ def _make_variant(
                         "The following variant properties are invalid according to the "
                         f"plugins: {invalid_str}"
                     )
+                if vdesc_valid.multi_value_violations:
+                    multi_value_str = ", ".join(
+                        sorted(x.to_str() for x in vdesc_valid.multi_value_violations)
+                    )
+                    raise ValidationError(
+                        "The following variant features do not permit multiple "
+                        f"values: {multi_value_str}"
+                    )
                 if vdesc_valid.unknown_properties:
                     unknown_str = ", ".join(
                         x.to_str() for x in vdesc_valid.unknown_properties
-- 
2.43.0


From a31ed30a0602c8d9045e6d075ab38a8e92024986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 13/31] fix: never leave a partial or clobbered wheel behind

---
 variantlib/commands/make_variant.py   |  4 +++-
 variantlib/commands/unmake_variant.py |  4 +++-
 variantlib/commands/utils.py          | 19 +++++++++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 7fb7bca..b796eb0 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -19,6 +19,7 @@ from variantlib.api import VariantProperty
 from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
+from variantlib.commands.utils import atomic_output
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -264,7 +265,8 @@ def _make_variant(
 
     with (
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        atomic_output(output_filepath) as temp_filepath,
+        zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 97985d1..24786c9 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -9,6 +9,7 @@ import shutil
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -90,7 +91,8 @@ def _unmake_variant(
 
     with (
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        atomic_output(output_filepath) as temp_filepath,
+        zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 10826c7..332e2bf 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -2,8 +2,27 @@
 
 from __future__ import annotations
 
+import os
+from contextlib import contextmanager
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
+from typing import TYPE_CHECKING
+
+if TYPE_CHECKING:
+    from collections.abc import Generator
+    from pathlib import Path
+
+
+@contextmanager
+def atomic_output(path: Path) -> Generator[Path]:
+    """Write into a temporary file, moved to path only if everything succeeded"""
+
+    temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        yield temp_path
+        temp_path.replace(path)
+    finally:
+        temp_path.unlink(missing_ok=True)
 
 
 def get_registered_commands(group: str) -> dict[str, EntryPoint]:
-- 
2.43.0


From 42e8e0f76cf8f73f189d1aa7654538167e3bbe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 14/31] fix: never leave a partial variant index behind

---
 variantlib/commands/add_wheel_to_index_json.py | 4 +++-
 variantlib/commands/generate_index_json.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/add_wheel_to_index_json.py b/variantlib/commands/add_wheel_to_index_json.py
index 7cc12f1..4acbe86 100644
--- a/variantlib/commands/add_wheel_to_index_json.py
+++ b/variantlib/commands/add_wheel_to_index_json.py
@@ -7,6 +7,7 @@ import pathlib
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -137,4 +138,5 @@ def add_wheel_to_index_json(args: list[str]) -> None:
             "to proceed."
         )
 
-    output_json_file.write_text(variant_json.to_str())
+    with atomic_output(output_json_file) as temp_path:
+        temp_path.write_text(variant_json.to_str())
diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 6ead9ff..765164b 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -8,6 +8,7 @@ from collections import defaultdict
 from typing import TYPE_CHECKING
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -122,4 +123,5 @@ def generate_index_json(args: list[str]) -> None:
 
     for namever, variants_json in output_files.items():
         path = directory / f"{namever}-variants.json"
-        path.write_text(variants_json.to_str())
+        with atomic_output(path) as temp_path:
+            temp_path.write_text(variants_json.to_str())
-- 
2.43.0


From 2b5495044df8c74a9a33818af3498adfee4b0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 15/31] fix: make generate-index-json independent of the
 directory order

---
 variantlib/commands/generate_index_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 765164b..85d2254 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -47,7 +47,8 @@ def generate_index_json(args: list[str]) -> None:
         lambda: defaultdict(set)
     )
 
-    for wheel in directory.glob("*.whl"):
+    # sort the wheels, so that the result does not depend on the directory order
+    for wheel in sorted(directory.glob("*.whl")):
         # Skip non wheel variants
         if (wheel_info := VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)) is None:
             logger.exception(
-- 
2.43.0


From b21e2b0fc1a7a41326ca05e77a04f0b8b8694c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 16/31] fix: let a plugin loader be entered again after a
 loading failure

---
 variantlib/plugins/loader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 1db3a07..41d88eb 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -73,7 +73,12 @@ class BasePluginLoader:
     def __enter__(self) -> Self:
         if self._namespace_map is not None:
             raise RuntimeError("Already inside the context manager!")
-        self._load_all_plugins()
+        try:
+            self._load_all_plugins()
+        except BaseException:
+            # the context has not been entered, so __exit__() will not be called
+            self._namespace_map = None
+            raise
         return self
 
     def __exit__(
-- 
2.43.0


From 5e26f7c91bb8973f95fb05fcb01aaf3f0934793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 17/31] fix: report undecodable plugin output as a plugin error

---
 variantlib/plugins/loader.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 41d88eb..74cf325 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -101,9 +101,7 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash(
-            (str(self._python_executable), _plugin_apis, _commands, _args)
-        )
+        cache_key = hash((str(self._python_executable), _plugin_apis, _commands, _args))
 
         with suppress(KeyError):
             return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
@@ -157,10 +155,16 @@ class BasePluginLoader:
 
             if process.returncode != 0:
                 raise PluginError(
-                    f"Plugin invocation failed:\n{process.stderr.decode('utf8')}"
+                    "Plugin invocation failed:\n"
+                    f"{process.stderr.decode('utf8', errors='replace')}"
                 )
 
-            return json.loads(process.stdout)  # type: ignore[no-any-return]
+            try:
+                return json.loads(process.stdout)  # type: ignore[no-any-return]
+            except ValueError as err:
+                raise PluginError(
+                    f"Plugin invocation returned invalid output: {err}"
+                ) from err
 
     @abstractmethod
     def _load_all_plugins(self) -> None: ...
-- 
2.43.0


From 6ca86fef138d61c1a6c67c4209586ed35ac7cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 18/31] fix: write valid plugin-api and requires for
 module-level entry points

---
 variantlib/plugins/loader.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 74cf325..4896a35 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -49,6 +49,16 @@ logger = logging.getLogger(__name__)
 VARIANT_PROVIDER_CACHE_TABLE: dict[int, dict[str, Any]] = {}
 
 
+def _normalize_plugin_api(plugin_api: str) -> str:
+    """Get the plugin API without optional whitespace"""
+    plugin_api_match = validate_matches_re(
+        plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
+    )
+    import_name: str = plugin_api_match.group("module")
+    attr_path: str | None = plugin_api_match.group("attr")
+    return f"{import_name}:{attr_path}" if attr_path is not None else import_name
+
+
 class BasePluginLoader:
     """Load and query plugins"""
 
@@ -181,13 +191,8 @@ class BasePluginLoader:
 
         normalized_plugin_apis = []
         for plugin_api in plugin_apis:
-            plugin_api_match = validate_matches_re(
-                plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
-            )
-            import_name: str = plugin_api_match.group("module")
-            attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(f"{import_name}:{attr_path}")
+            normalized_plugin_apis.append(_normalize_plugin_api(plugin_api))
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
@@ -430,7 +435,8 @@ class EntryPointPluginLoader(BasePluginLoader):
 
             plugin_apis.append(ep.value)
             if ep.dist is not None:
-                self._plugin_provider_packages[ep.value] = ep.dist
+                plugin_api = _normalize_plugin_api(ep.value)
+                self._plugin_provider_packages[plugin_api] = ep.dist
 
         self._load_all_plugins_from_tuple(plugin_apis=plugin_apis)
 
-- 
2.43.0


From 51edd50d30f05168948aa934b8c18f45d4eec60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 19/31] fix: update-pyproject-toml -d must delete the static
 properties of the namespace

---
 variantlib/commands/update_pyproject_toml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 22aecc8..9d55605 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -13,6 +13,7 @@ from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_DATA_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_PLUGIN_API_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_REQUIRES_KEY
+from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
 from variantlib.plugins.loader import EntryPointPluginLoader
 
 
@@ -62,6 +63,7 @@ def update_pyproject_toml(args: list[str]) -> None:
     default_prio_table = variant_table.setdefault(VARIANT_INFO_DEFAULT_PRIO_KEY, {})
     namespace_prio_key = default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, [])
     provider_table = variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
+    static_properties_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
 
     with EntryPointPluginLoader() as loader:
         for namespace in parsed_args.delete:
@@ -69,6 +71,8 @@ def update_pyproject_toml(args: list[str]) -> None:
                 namespace_prio_key.remove(namespace)
             if namespace in provider_table:
                 del provider_table[namespace]
+            if namespace in static_properties_table:
+                del static_properties_table[namespace]
 
         for namespace in parsed_args.add:
             if namespace not in loader.namespaces:
-- 
2.43.0


From 4ba820516bb826983fc29a021b9d5bc5c4482a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 20/31] fix: skip corrupt wheels when generating a variant
 index

---
 variantlib/commands/generate_index_json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 85d2254..d38a92b 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -4,6 +4,7 @@ import argparse
 import logging
 import pathlib
 import zipfile
+import zlib
 from collections import defaultdict
 from typing import TYPE_CHECKING
 
@@ -87,7 +88,8 @@ def generate_index_json(args: list[str]) -> None:
                         {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                     )
                     continue
-        except ValidationError as err:
+        except (ValueError, zipfile.BadZipFile, zlib.error) as err:
+            # invalid metadata (not even JSON), or a corrupt wheel
             logger.warning(
                 "%(wheel)s: %(err)s",
                 {
-- 
2.43.0


From 24bfc3af6cc372056328ff2428b94a7182ba9b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 21/31] fix: report properties of incorrect types as a
 validation error

---
 variantlib/models/variant.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/models/variant.py b/variantlib/models/variant.py
index ed79e9e..51c8046 100644
--- a/variantlib/models/variant.py
+++ b/variantlib/models/variant.py
@@ -175,7 +175,8 @@ class VariantDescription(BaseModel):
         # in a consistent manner.
         # Note: We have to execute this before validation to guarantee hash consistency.
 
-        with contextlib.suppress(AttributeError):
+        # (values that cannot be sorted are left for the validator to report)
+        with contextlib.suppress(AttributeError, TypeError):
             # Only "legal way" to modify a frozen dataclass attribute post init.
             object.__setattr__(self, "properties", sorted(self.properties))
 
-- 
2.43.0


From ae4866791f5b74668f17a02a683cf18d2c03762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:20 +0000
Subject: [PATCH 22/31] fix: skip wheels with encrypted or unsupported members
 in indexes

generate-index-json aborted, without writing any index, when the metadata of
a single wheel was encrypted, compressed with an unsupported method, truncated
or nested too deeply to be parsed.
---
 variantlib/commands/generate_index_json.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index d38a92b..c691ae8 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -88,8 +88,15 @@ def generate_index_json(args: list[str]) -> None:
                         {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                     )
                     continue
-        except (ValueError, zipfile.BadZipFile, zlib.error) as err:
-            # invalid metadata (not even JSON), or a corrupt wheel
+        except (
+            ValueError,
+            EOFError,
+            RuntimeError,
+            zipfile.BadZipFile,
+            zlib.error,
+        ) as err:
+            # invalid metadata (not even JSON), or a corrupt wheel (RuntimeError
+            # stands for encrypted members and unsupported compression methods)
             logger.warning(
                 "%(wheel)s: %(err)s",
                 {
-- 
2.43.0


From 4062971f68112f3136bfca8a99350907edab6efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 23/31] fix: parse quoted RECORD paths with commas

Rows of files whose quoted path starts with the path of the variant metadata
followed by a comma were dropped along with the metadata.
---
 variantlib/commands/make_variant.py   | 5 ++---
 variantlib/commands/unmake_variant.py | 7 +++----
 variantlib/commands/utils.py          | 8 ++++++++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index b796eb0..aa048a5 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -20,6 +20,7 @@ from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
 from variantlib.commands.utils import atomic_output
+from variantlib.commands.utils import get_record_path
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -289,10 +290,8 @@ def _make_variant(
                         for line in input_file:
                             # the last line may lack a newline
                             new_line = line if line.endswith(b"\n") else line + b"\n"
-                            # note: only the (possibly quoted) path is needed here
-                            rec_filename = line.split(b",", 1)[0].strip(b'"')
                             # Skip existing hash for the discarded copy.
-                            if rec_filename.decode("utf-8") == dist_info_path:
+                            if get_record_path(line) == dist_info_path:
                                 continue
                             output_file.write(new_line)
 
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 24786c9..b34d6bf 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -10,6 +10,7 @@ import zipfile
 
 from variantlib import __package_name__
 from variantlib.commands.utils import atomic_output
+from variantlib.commands.utils import get_record_path
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -110,11 +111,9 @@ def _unmake_variant(
                     # Update RECORD to remove the checksum.
                     variant_dist_info_path = (
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    ).encode()
+                    )
                     for line in input_file:
-                        # note: only the (possibly quoted) path is needed here
-                        rec_filename = line.split(b",", 1)[0].strip(b'"')
-                        if rec_filename != variant_dist_info_path:
+                        if get_record_path(line) != variant_dist_info_path:
                             output_file.write(line)
                 else:
                     shutil.copyfileobj(input_file, output_file)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 332e2bf..45fd0b1 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import csv
 import os
 from contextlib import contextmanager
 from importlib.metadata import EntryPoint
@@ -25,6 +26,13 @@ def atomic_output(path: Path) -> Generator[Path]:
         temp_path.unlink(missing_ok=True)
 
 
+def get_record_path(line: bytes) -> str:
+    """Get the (possibly quoted) path from a RECORD line"""
+
+    row = next(csv.reader([line.decode("utf-8")]), [])
+    return row[0] if row else ""
+
+
 def get_registered_commands(group: str) -> dict[str, EntryPoint]:
     """Collect entry points for the given group, preserving original names."""
     commands = {}
-- 
2.43.0


From 4bf25937fa5e910521ccd73e99a3eed44e9f12e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:38 +0000
Subject: [PATCH 24/31] fix: reject non-boolean multi_value in plugin answers

A plugin answering e.g. multi_value="false" was taken to permit several values.
---
 variantlib/models/provider.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/models/provider.py b/variantlib/models/provider.py
index edc9474..78caaa2 100644
--- a/variantlib/models/provider.py
+++ b/variantlib/models/provider.py
@@ -58,7 +58,9 @@ class VariantFeatureConfig(BaseModel):
         }
     )
 
-    multi_value: bool
+    multi_value: bool = field(
+        metadata={"validator": lambda val: validate_type(val, bool)}
+    )
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 3284c30db4d61fcd86d88e60b71e4ecc7b4a9402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 25/31] fix: do not share the cached plugin answers with
 callers

Modifying the values of a returned provider configuration changed the answers
to later queries, or the static properties of the metadata object.
---
 variantlib/plugins/loader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 4896a35..f3b409f 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -9,6 +9,7 @@ import sys
 from abc import abstractmethod
 from collections.abc import Collection
 from contextlib import suppress
+from copy import deepcopy
 from importlib.metadata import Distribution
 from importlib.metadata import entry_points
 from pathlib import Path
@@ -114,14 +115,15 @@ class BasePluginLoader:
         cache_key = hash((str(self._python_executable), _plugin_apis, _commands, _args))
 
         with suppress(KeyError):
-            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
+            # copied, so that the caller cannot modify the cached result
+            return deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])
 
         result = self._run_call_subprocess(
             plugin_apis=_plugin_apis,
             commands=_commands,
             args=_args,
         )
-        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = result
+        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = deepcopy(result)
         return result
 
     def _run_call_subprocess(
@@ -240,7 +242,9 @@ class BasePluginLoader:
             namespace: ProviderConfig(
                 namespace=namespace,
                 configs=[
-                    VariantFeatureConfig(name=name, values=values, multi_value=False)
+                    VariantFeatureConfig(
+                        name=name, values=list(values), multi_value=False
+                    )
                     for name, values in features.items()
                 ],
             )
-- 
2.43.0


From 9e113aa385dd3abd78572f17a537092de263e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:06 +0000
Subject: [PATCH 26/31] fix: reject plugins with invalid namespaces when
 loading them

A namespace of a wrong type or syntax was only noticed, if at all, when the
plugin returned configurations.
---
 variantlib/plugins/loader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index f3b409f..3145622 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -21,6 +21,7 @@ from typing import cast
 from packaging.markers import Marker
 from packaging.markers import default_environment
 
+from variantlib.constants import VALIDATION_NAMESPACE_REGEX
 from variantlib.constants import VALIDATION_PROVIDER_PLUGIN_API_REGEX
 from variantlib.errors import NoPluginFoundError
 from variantlib.errors import PluginError
@@ -208,6 +209,12 @@ class BasePluginLoader:
         ]
 
         for plugin_api, namespace in namespaces.items():
+            if not isinstance(
+                namespace, str
+            ) or not VALIDATION_NAMESPACE_REGEX.fullmatch(namespace):
+                raise PluginError(
+                    f"Plugin {plugin_api!r} uses an invalid namespace: {namespace!r}"
+                )
             if namespace in self._namespace_map.values():
                 raise RuntimeError(
                     "Two plugins found using the same namespace "
-- 
2.43.0


From 87fc15a55ab2fc8d561b5a44c71b26fa6cac52b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 27/31] fix: reject falsy configuration values of the wrong
 type

---
 variantlib/models/configuration.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/variantlib/models/configuration.py b/variantlib/models/configuration.py
index 8a2bc3a..6ebf713 100644
--- a/variantlib/models/configuration.py
+++ b/variantlib/models/configuration.py
@@ -130,9 +130,13 @@ class VariantConfiguration(BaseModel):
         """
 
         return cls(
-            namespace_priorities=namespace_priorities or [],
-            feature_priorities=feature_priorities or {},
-            property_priorities=property_priorities or {},
+            namespace_priorities=(
+                [] if namespace_priorities is None else namespace_priorities
+            ),
+            feature_priorities={} if feature_priorities is None else feature_priorities,
+            property_priorities=(
+                {} if property_priorities is None else property_priorities
+            ),
         )
 
     def to_dict(self) -> dict[str, Any]:
-- 
2.43.0


From 608948d57459b92b42dd3f4012cd90395b8c4d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 28/31] fix: do not put local versions in requirements for
 plugins

---
 variantlib/commands/update_pyproject_toml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 9d55605..d2e23e4 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -88,7 +88,9 @@ def update_pyproject_toml(args: list[str]) -> None:
             namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
             default_requires = []
             if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
-                default_requires.append(f"{dist.name} >={dist.version}")
+                # local version labels are not permitted with ">="
+                version = dist.version.partition("+")[0]
+                default_requires.append(f"{dist.name} >={version}")
             namespace_table.setdefault(
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
-- 
2.43.0


From 00983032fa8673a89eb698e2c5c744ed447aae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 29/31] fix: update pyproject.toml atomically

---
 variantlib/commands/update_pyproject_toml.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index d2e23e4..adef5b2 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -1,12 +1,14 @@
 from __future__ import annotations
 
 import argparse
+import shutil
 import sys
 from pathlib import Path
 
 from tomlkit.toml_file import TOMLFile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output
 from variantlib.constants import PYPROJECT_TOML_TOP_KEY
 from variantlib.constants import VARIANT_INFO_DEFAULT_PRIO_KEY
 from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
@@ -95,5 +97,10 @@ def update_pyproject_toml(args: list[str]) -> None:
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
 
-    toml_file.write(toml_data)
+    # follow symlinks, and preserve file mode and line endings
+    with atomic_output(parsed_args.file.resolve()) as temp_path:
+        shutil.copy(parsed_args.file, temp_path)
+        temp_file = TOMLFile(temp_path)
+        temp_file.read()
+        temp_file.write(toml_data)
     sys.stdout.write(f"Wrote changes to {parsed_args.file}\n")
-- 
2.43.0


From 389529c0f69cffce345ccb99b6b5903ac0695f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:27 +0000
Subject: [PATCH 30/31] fix: do not damage pyproject.toml layouts that tomlkit
 cannot edit

---
 variantlib/commands/update_pyproject_toml.py | 121 +++++++++++++------
 1 file changed, 87 insertions(+), 34 deletions(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index adef5b2..9accbde 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -4,6 +4,8 @@ import argparse
 import shutil
 import sys
 from pathlib import Path
+from typing import TYPE_CHECKING
+from typing import Any
 
 from tomlkit.toml_file import TOMLFile
 
@@ -18,6 +20,75 @@ from variantlib.constants import VARIANT_INFO_PROVIDER_REQUIRES_KEY
 from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
 from variantlib.plugins.loader import EntryPointPluginLoader
 
+if TYPE_CHECKING:
+    from tomlkit import TOMLDocument
+
+if sys.version_info >= (3, 11):
+    import tomllib
+else:
+    import tomli as tomllib
+
+
+def _apply_changes(
+    toml_data: Any, parsed_args: argparse.Namespace, loader: EntryPointPluginLoader
+) -> None:
+    # prepare all relevant tables
+    variant_table = toml_data.setdefault(PYPROJECT_TOML_TOP_KEY, {})
+    default_prio_table = variant_table.setdefault(VARIANT_INFO_DEFAULT_PRIO_KEY, {})
+    namespace_prio_key = default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, [])
+    provider_table = variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
+    static_properties_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
+
+    for namespace in parsed_args.delete:
+        while namespace in namespace_prio_key:
+            namespace_prio_key.remove(namespace)
+        if namespace in provider_table:
+            del provider_table[namespace]
+        if namespace in static_properties_table:
+            del static_properties_table[namespace]
+
+    for namespace in parsed_args.add:
+        if namespace not in loader.namespaces:
+            raise RuntimeError(
+                f"Plugin providing namespace `{namespace}` not installed."
+            )
+
+        if namespace not in namespace_prio_key:
+            namespace_prio_key.append(namespace)
+
+        namespace_table = provider_table.setdefault(namespace, {})
+        plugin_api = loader.plugin_api_values[namespace]
+        namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
+        default_requires = []
+        if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
+            # local version labels are not permitted with ">="
+            version = dist.version.partition("+")[0]
+            default_requires.append(f"{dist.name} >={version}")
+        namespace_table.setdefault(
+            VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
+        )
+
+
+def _normalize(data: Any) -> Any:
+    """Normalize the data for comparison, with empty tables removed"""
+
+    if isinstance(data, dict):
+        items = ((key, _normalize(value)) for key, value in data.items())
+        return {key: value for key, value in items if value != {}}
+    if isinstance(data, list):
+        return [_normalize(value) for value in data]
+    return str(data)
+
+
+def _renders_as(toml_data: TOMLDocument, expected_data: Any) -> bool:
+    """Check whether the document, once written, would match the data"""
+
+    try:
+        rendered_data = tomllib.loads(toml_data.as_string())
+    except tomllib.TOMLDecodeError:
+        return False
+    return _normalize(rendered_data) == _normalize(expected_data)
+
 
 def update_pyproject_toml(args: list[str]) -> None:
     parser = argparse.ArgumentParser(
@@ -60,41 +131,23 @@ def update_pyproject_toml(args: list[str]) -> None:
     except FileNotFoundError:
         parser.error(f"{str(parsed_args.file)!r} does not exist")
 
-    # prepare all relevant tables
-    variant_table = toml_data.setdefault(PYPROJECT_TOML_TOP_KEY, {})
-    default_prio_table = variant_table.setdefault(VARIANT_INFO_DEFAULT_PRIO_KEY, {})
-    namespace_prio_key = default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, [])
-    provider_table = variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
-    static_properties_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
-
+    # apply the same changes to plain data, in order to verify the result
+    expected_data = tomllib.loads(parsed_args.file.read_text(encoding="utf-8"))
     with EntryPointPluginLoader() as loader:
-        for namespace in parsed_args.delete:
-            while namespace in namespace_prio_key:
-                namespace_prio_key.remove(namespace)
-            if namespace in provider_table:
-                del provider_table[namespace]
-            if namespace in static_properties_table:
-                del static_properties_table[namespace]
-
-        for namespace in parsed_args.add:
-            if namespace not in loader.namespaces:
-                raise RuntimeError(
-                    f"Plugin providing namespace `{namespace}` not installed."
-                )
-
-            if namespace not in namespace_prio_key:
-                namespace_prio_key.append(namespace)
-
-            namespace_table = provider_table.setdefault(namespace, {})
-            plugin_api = loader.plugin_api_values[namespace]
-            namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
-            default_requires = []
-            if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
-                # local version labels are not permitted with ">="
-                version = dist.version.partition("+")[0]
-                default_requires.append(f"{dist.name} >={version}")
-            namespace_table.setdefault(
-                VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
+        for data in (expected_data, toml_data):
+            _apply_changes(data, parsed_args, loader)
+
+    if not _renders_as(toml_data, expected_data):
+        # tomlkit may fail to edit arrays in place, e.g. due to comments
+        toml_data[PYPROJECT_TOML_TOP_KEY][VARIANT_INFO_DEFAULT_PRIO_KEY][
+            VARIANT_INFO_NAMESPACE_KEY
+        ] = expected_data[PYPROJECT_TOML_TOP_KEY][VARIANT_INFO_DEFAULT_PRIO_KEY][
+            VARIANT_INFO_NAMESPACE_KEY
+        ]
+        if not _renders_as(toml_data, expected_data):
+            raise RuntimeError(
+                f"Unable to update {parsed_args.file} without damaging it, please "
+                "update it manually."
             )
 
     # follow symlinks, and preserve file mode and line endings
-- 
2.43.0


From fb196670c2e665f8159f9864e41844362ffcd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:52 +0000
Subject: [PATCH 31/31] fix: refuse namespace priorities that are not a list of
 names

sort_and_filter_supported_variants() validates its other arguments, but
passing namespace priorities of another type raised an AttributeError.
---
 variantlib/resolver/lib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index 94bdd90..a61dc01 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -231,6 +231,7 @@ def sort_and_filter_supported_variants(
 
     if namespace_priorities is None:
         namespace_priorities = []
+    validate_type(namespace_priorities, list[str])
 
     # Avoiding modification in place
     namespace_priorities = namespace_priorities.copy()
-- 
2.43.0

