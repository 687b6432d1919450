From a5581790c47b67a8f51f645f5ee185dcfc97e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 01/65] fix: accept a coroutine as ResourceOptions.depends_on

depends_on is an Input, but a coroutine was awaited once by the constructor's
check and once more when the resource was registered, which raised
'cannot reuse already awaited coroutine'.
---
 sdk/python/lib/pulumi/resource.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 33f7923..0220358 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -17,6 +17,7 @@
 import asyncio
 import copy
 import warnings
+from inspect import isawaitable
 from typing import (
     Optional,
     List,
@@ -575,7 +576,12 @@ class ResourceOptions:
         self.transformations = transformations
         self.urn = urn
         self.replace_on_changes = replace_on_changes
-        self.depends_on = depends_on
+        # `depends_on` is read more than once but a coroutine can be awaited only once, so turn it into a future.
+        self.depends_on = (
+            asyncio.ensure_future(depends_on)
+            if isawaitable(depends_on)
+            else depends_on
+        )
         self.retain_on_delete = retain_on_delete
 
         # Proactively check that `depends_on` values are of type
-- 
2.43.0


From cbc50396905d3242d8a444a8dd3f787a10c27cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 02/65] fix: settle the outputs of read/get resources when
 their answer cannot be decoded

read_resource and get_resource left the remaining outputs pending when
resolving the engine's answer threw, so anything awaiting them (another
resource's registration, say) hung the program. register_resource already
propagates such an exception to its outputs.
---
 sdk/python/lib/pulumi/runtime/resource.py | 89 ++++++++++++++++-------
 1 file changed, 61 insertions(+), 28 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b2025eb..336c5e6 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -272,26 +272,51 @@ def get_resource(
                 resolve_id(None, True, False, exn)
             raise
 
-        # Otherwise, grab the URN, ID, and output properties and resolve all of them.
-        resp = getattr(resp, "return")
-
-        log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
-        resolve_urn(resp["urn"], True, False, None)
-        if resolve_id:
-            # The ID is known if (and only if) it is a non-empty string. If it's either None or an
-            # empty string, we should treat it as unknown. TFBridge in particular is known to send
-            # the empty string as an ID when doing a preview.
-            is_known = bool(resp["id"])
-            resolve_id(resp["id"], is_known, False, None)
-
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp["state"],
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        # Otherwise, grab the URN, ID, and output properties and resolve all of them. As in
+        # `register_resource`, this can itself throw an exception, which must reach the outputs
+        # that have not been resolved yet or else anything awaiting them would hang.
+        resolve_outputs_called = False
+        resolve_id_called = False
+        resolve_urn_called = False
+
+        try:
+            resp = getattr(resp, "return")
+
+            log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
+            resolve_urn(resp["urn"], True, False, None)
+            resolve_urn_called = True
+
+            if resolve_id:
+                # The ID is known if (and only if) it is a non-empty string. If it's either None or an
+                # empty string, we should treat it as unknown. TFBridge in particular is known to send
+                # the empty string as an ID when doing a preview.
+                is_known = bool(resp["id"])
+                resolve_id(resp["id"], is_known, False, None)
+                resolve_id_called = True
+
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp["state"],
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+            resolve_outputs_called = True
+
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+
+            if not resolve_outputs_called:
+                rpc.resolve_outputs_due_to_exception(resolvers, exn)
+
+            if not resolve_urn_called:
+                resolve_urn(None, True, False, exn)
+
+            if resolve_id is not None and not resolve_id_called:
+                resolve_id(None, True, False, exn)
+
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("get resource", do_get)())
 
@@ -454,14 +479,22 @@ def read_resource(
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
         resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp.properties,
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+
+        # As in `register_resource`, this can itself throw an exception, which must reach the
+        # outputs or else anything awaiting them would hang.
+        try:
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp.properties,
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("read resource", do_read)())
 
-- 
2.43.0


From 37e5aa194d01e8426ddc1a94949a904d24e7cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 03/65] fix: emit a stack output that is referenced from
 several exports at each of them

massage recorded every object it had ever seen rather than those enclosing
the current one, so a value exported twice (or a resource and then one of its
properties) was emitted as null the second time.
---
 sdk/python/lib/pulumi/runtime/stack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b789241..1545879 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -174,8 +174,8 @@ def massage(attr: Any, seen: List[Any]):
     if is_primitive(attr):
         return attr
 
-    # from this point on, we have complex objects.  If we see them again, we don't want to emit them
-    # again fully or else we'd loop infinitely.
+    # from this point on, we have complex objects.  If we see them again inside of themselves, we don't
+    # want to emit them again fully or else we'd loop infinitely.
     if reference_contains(attr, seen):
         # Note: for Resources we hit again, emit their urn so cycles can be easily understood in
         # the popo objects.
@@ -185,7 +185,9 @@ def massage(attr: Any, seen: List[Any]):
         # otherwise just emit as nothing to stop the looping.
         return None
 
-    seen.append(attr)
+    # `seen` holds the objects that enclose the one being massaged. Extend a copy, as an object that is
+    # referenced from several places, but not from within itself, must be emitted at each of them.
+    seen = seen + [attr]
 
     # first check if the value is an actual dictionary.  If so, massage the values of it to deeply
     # make sure this is a popo.
-- 
2.43.0


From ee9503f24522df4e2c78a3feb6475ab261821bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 04/65] fix: normalise stack outputs that are given as
 coroutines

A coroutine was taken for a primitive, so what it returned was exported
without dropping private keys or turning objects into plain values.
---
 sdk/python/lib/pulumi/runtime/stack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 1545879..c5c694d 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -205,7 +205,7 @@ def massage(attr: Any, seen: List[Any]):
         return attr.apply(lambda v: massage(v, seen))
 
     if isawaitable(attr):
-        return Output.from_input(attr).apply(lambda v: massage(v, seen))
+        return Output._from_input_shallow(attr).apply(lambda v: massage(v, seen))
 
     if isinstance(attr, Resource):
         result = massage(attr.__dict__, seen)
@@ -248,6 +248,10 @@ def is_primitive(attr: Any) -> bool:
     if hasattr(attr, "__dict__"):
         return False
 
+    # coroutines can't be iterated over, but massage knows what to do with what they return.
+    if isawaitable(attr):
+        return False
+
     try:
         iter(attr)
         return False
-- 
2.43.0


From 8e081bb21b615131177443a51e37100130949c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 05/65] fix: combine knownness and secretness of both outputs
 when joining them

_map2_output applied 'and'/'or' to the awaitables themselves, so those of the
first output (and, for secretness, a typo'd operand) were ignored.
---
 sdk/python/lib/pulumi/output.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 1dd6f47..5acea37 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -570,11 +570,21 @@ def _map2_output(
         r2 = await o2.resources()
         return r1 | r2
 
+    async def known() -> bool:
+        k1 = await o1.is_known()
+        k2 = await o2.is_known()
+        return k1 and k2
+
+    async def secret() -> bool:
+        s1 = await o1.is_secret()
+        s2 = await o2.is_secret()
+        return s1 or s2
+
     return Output(
         resources=asyncio.ensure_future(res()),
         future=asyncio.ensure_future(fut()),
-        is_known=o1.is_known() and o2.is_known(),
-        is_secret=o2.is_secret() or o2.is_secret(),
+        is_known=asyncio.ensure_future(known()),
+        is_secret=asyncio.ensure_future(secret()),
     )
 
 
-- 
2.43.0


From 365d8ef19b08efc41dea46afcca20788b60d6256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 06/65] fix: bind the instance-level merge of merged options to
 the merged options

a.merge(b).merge(c) dropped everything b had contributed, because the copy
made by merge kept a's bound method.
---
 sdk/python/lib/pulumi/invoke.py   | 2 ++
 sdk/python/lib/pulumi/resource.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 625271b..ce2b7ea 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -115,6 +115,8 @@ class InvokeOptions:
             raise TypeError("Expected opts2 to be a InvokeOptions instance")
 
         dest = copy.copy(opts1)
+        # The copy's instance-level `merge` is still bound to `opts1`.
+        dest.merge = dest._merge_instance  # type: ignore
         source = opts2
 
         dest.parent = dest.parent if source.parent is None else source.parent
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 0220358..579b8d8 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -649,6 +649,8 @@ class ResourceOptions:
             raise TypeError("Expected opts2 to be a ResourceOptions instance")
 
         dest = copy.copy(opts1)
+        # The copy's instance-level `merge` is still bound to `opts1`.
+        dest.merge = dest._merge_instance  # type: ignore
         source = copy.copy(opts2)
 
         # This makes merging simple.
-- 
2.43.0


From d3b18ef93ee65855704b0ef9b7c341228bde3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 07/65] fix: merge options given as any sequence, not just
 lists

A tuple of providers vanished when options were merged, and a tuple of aliases
could not be merged with a list of them.
---
 sdk/python/lib/pulumi/resource.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 579b8d8..c47eee2 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -734,12 +734,12 @@ def _collapse_providers(opts: "ResourceOptions"):
             opts.providers = None
         else:
             opts.providers = {}
-            if isinstance(providers, list):
+            if isinstance(providers, Mapping):
+                for key, prov in providers.items():
+                    opts.providers[key] = prov
+            else:
                 for prov in providers:
                     opts.providers[prov.package] = prov
-            elif isinstance(providers, dict):
-                for key, prov in providers:
-                    opts.providers[key] = prov
 
 
 def _merge_lists(dest, source):
@@ -749,7 +749,7 @@ def _merge_lists(dest, source):
     if source is None:
         return dest
 
-    return dest + source
+    return [*dest, *source]
 
 
 # !!! IMPORTANT !!! If you add a new attribute to this type, make sure to verify that ResourceOptions.merge
-- 
2.43.0


From 822bd9e0fa68279f3702a923771c5e1e8960928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 08/65] fix: keep the version when merging InvokeOptions that
 do not specify one

The version defaults to the empty string, which overrode the version of the
options merged into.
---
 sdk/python/lib/pulumi/invoke.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index ce2b7ea..ff0770b 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -126,6 +126,7 @@ class InvokeOptions:
             if source.plugin_download_url is None
             else source.plugin_download_url
         )
-        dest.version = dest.version if source.version is None else source.version
+        # An unspecified version defaults to the empty string rather than None.
+        dest.version = dest.version if not source.version else source.version
 
         return dest
-- 
2.43.0


From 5d36e86c34e8d38acdfee994527930e4a877b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 09/65] fix: send all providers of a remote component

When a remote component had (or inherited) a provider for its own package, only
that one was sent and every other member of 'providers' was dropped.
---
 sdk/python/lib/pulumi/runtime/resource.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 336c5e6..1241c32 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -781,18 +781,16 @@ def convert_providers(
     """
     Merge all providers opts (opts.provider and both list and dict forms of opts.providers) into a single dict.
     """
-    if provider is not None:
-        return convert_providers(None, [provider])
-
-    if providers is None:
-        return {}
+    result: Dict[str, "ProviderResource"] = {}
 
     if isinstance(providers, Mapping):
-        return providers
+        result.update(providers)
+    elif providers is not None:
+        for p in providers:
+            result[p.package] = p
 
-    result = {}
-    for p in providers:
-        result[p.package] = p
+    if provider is not None:
+        result[provider.package] = provider
 
     return result
 
-- 
2.43.0


From 7d663084ed42eb092fdc62c39d415d5d8d59fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 10/65] fix: key an inherited provider by its own package

A component's 'provider' was recorded under the package of the component's type
rather than that of the provider, so children of the provider's package did not
inherit it and children of the component's package got the wrong one.
---
 sdk/python/lib/pulumi/resource.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index c47eee2..a879664 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -991,14 +991,15 @@ class Resource:
 
         provider = opts.provider or ambient_provider or parent_provider
 
-        if pkg and opts.provider:
-            if pkg in opts_providers:
-                message = f"There is a conflict between the `provider` field ({pkg}) and a member of the `providers` map"
+        if opts.provider:
+            provider_pkg = opts.provider.package
+            if provider_pkg in opts_providers:
+                message = f"There is a conflict between the `provider` field ({provider_pkg}) and a member of the `providers` map"
                 depreciation = "This will become an error by the end of July 2022. See https://github.com/pulumi/pulumi/issues/8799 for more details"
                 warnings.warn(f"{message} for resource {t}. " + depreciation)
                 log.warn(f"{message}. {depreciation}", resource=self)
             else:
-                opts_providers[pkg] = opts.provider
+                opts_providers[provider_pkg] = opts.provider
 
         # opts_providers takes priority over self._providers
         providers = {**self._providers, **opts_providers}
-- 
2.43.0


From 29346fd9bb0b01c5b020729bbceeb22b9447d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 11/65] fix: leave the InvokeOptions passed to invoke
 unmodified

---
 sdk/python/lib/pulumi/runtime/invoke.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index de852e4..2571b23 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -70,14 +70,16 @@ def invoke(
 
     async def do_invoke():
         # If a parent was provided, but no provider was provided, use the parent's provider if one was specified.
-        if opts.parent is not None and opts.provider is None:
-            opts.provider = opts.parent.get_provider(tok)
+        # Note that the options belong to the caller, who may pass them again, so they are left as they are.
+        provider = opts.provider
+        if opts.parent is not None and provider is None:
+            provider = opts.parent.get_provider(tok)
 
         # Construct a provider reference from the given provider, if one was provided to us.
         provider_ref = None
-        if opts.provider is not None:
-            provider_urn = await opts.provider.urn.future()
-            provider_id = (await opts.provider.id.future()) or rpc.UNKNOWN
+        if provider is not None:
+            provider_urn = await provider.urn.future()
+            provider_id = (await provider.id.future()) or rpc.UNKNOWN
             provider_ref = f"{provider_urn}::{provider_id}"
             log.debug(f"Invoke using provider {provider_ref}")
 
-- 
2.43.0


From 82dd290de7a0da5aec5770ff210a0719a29aca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 12/65] fix: allow a resource known only by its URN to be a
 parent

---
 sdk/python/lib/pulumi/resource.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index a879664..36633c0 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -829,8 +829,13 @@ class Resource:
         """
 
         if dependency:
+            # It may be used as the parent of another resource, which inherits nothing from it.
+            self._name = name
             self._protect = False
             self._providers = {}
+            self._transformations = []
+            self._aliases = []
+            self._childResources = set()
             return
 
         if props is None:
-- 
2.43.0


From dfa4520a8ca964327c7f85cab3b39c67d6c41259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 13/65] fix: create_urn of a child of the root stack, and with
 a project or stack given as an output

---
 sdk/python/lib/pulumi/resource.py | 35 ++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 36633c0..fa453d0 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -277,8 +277,8 @@ def collapse_alias_to_urn(
         name = inner.name if inner.name is not ... else defaultName  # type: ignore
         type_ = inner.type_ if inner.type_ is not ... else defaultType  # type: ignore
         parent = inner.parent if inner.parent is not ... else defaultParent  # type: ignore
-        project: str = inner.project if inner.project is not ... else get_project()  # type: ignore
-        stack: str = inner.stack if inner.stack is not ... else get_stack()  # type: ignore
+        project: "Input[str]" = inner.project if inner.project is not ... else get_project()  # type: ignore
+        stack: "Input[str]" = inner.stack if inner.stack is not ... else get_stack()  # type: ignore
 
         if name is None:
             raise Exception("No valid 'name' passed in for alias.")
@@ -1252,13 +1252,30 @@ def create_urn(
     name: "Input[str]",
     type_: "Input[str]",
     parent: Optional[Union["Resource", "Input[str]"]] = None,
-    project: str = None,
-    stack: str = None,
+    project: Optional["Input[str]"] = None,
+    stack: Optional["Input[str]"] = None,
 ) -> "Output[str]":
     """
     create_urn computes a URN from the combination of a resource name, resource type, optional
     parent, optional project and optional stack.
     """
+
+    def root_prefix() -> "Output[str]":
+        return Output.concat(
+            "urn:pulumi:",
+            get_stack() if stack is None else stack,
+            "::",
+            get_project() if project is None else project,
+            "::",
+        )
+
+    def prefix_of_parent(urn: str) -> "Input[str]":
+        prefix = urn[0 : urn.rfind("::")]
+        # Don't prefix the stack type as a parent type.
+        if prefix.endswith("::pulumi:pulumi:Stack"):
+            return root_prefix()
+        return prefix + "$"
+
     parent_prefix: Optional[Output[str]] = None
     if parent is not None:
         parent_urn = None
@@ -1267,15 +1284,9 @@ def create_urn(
         else:
             parent_urn = Output.from_input(parent)
 
-        parent_prefix = parent_urn.apply(lambda u: u[0 : u.rfind("::")] + "$")
+        parent_prefix = parent_urn.apply(prefix_of_parent)
     else:
-        if stack is None:
-            stack = get_stack()
-
-        if project is None:
-            project = get_project()
-
-        parent_prefix = Output.from_input("urn:pulumi:" + stack + "::" + project + "::")
+        parent_prefix = root_prefix()
 
     all_args = [parent_prefix, type_, name]
     # invariant http://mypy.readthedocs.io/en/latest/common_issues.html#variance
-- 
2.43.0


From d6b27a93ca8e4cd44aa8ebf3f316bbbb0b8849a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 14/65] fix: accept a coroutine as an alias of a resource whose
 parent is aliased

---
 sdk/python/lib/pulumi/resource.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index fa453d0..48f7871 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -127,12 +127,12 @@ def all_aliases(
     If there are N child aliases, and M parent aliases, there will be (M+1)*(N+1)-1 total aliases,
     or, as calculated in the logic below, N+(M*(1+N)).
     """
-    aliases: "List[Input[str]]" = []
-
-    for child_alias in child_aliases or []:
-        aliases.append(
-            collapse_alias_to_urn(child_alias, child_name, child_type, parent)
-        )
+    # Collapse each alias only once, as it may be a coroutine.
+    child_alias_urns = [
+        collapse_alias_to_urn(child_alias, child_name, child_type, parent)
+        for child_alias in child_aliases or []
+    ]
+    aliases: "List[Input[str]]" = [*child_alias_urns]
 
     if parent is not None:
         parent_name = parent._name
@@ -142,10 +142,7 @@ def all_aliases(
                     child_name, parent._name, parent_alias, child_type
                 )
             )
-            for child_alias in child_aliases or []:
-                child_alias_urn = collapse_alias_to_urn(
-                    child_alias, child_name, child_type, parent
-                )
+            for child_alias_urn in child_alias_urns:
 
                 def inherited_alias_for_child_urn(
                     child_alias_urn: str, parent_alias=parent_alias
-- 
2.43.0


From 64af9197af5e748b8755af97da431ba73dad4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 15/65] fix: do not fail a preview because of an alias that is
 not known yet

---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 1241c32..51164e9 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -178,7 +178,8 @@ async def prepare_resource(
     aliases: List[Optional[str]] = []
     for alias in res._aliases:
         alias_val = await Output.from_input(alias).future()
-        if not alias_val in aliases:
+        # An alias that is not known yet (during preview) cannot be sent.
+        if alias_val is not None and not alias_val in aliases:
             aliases.append(alias_val)
 
     return ResourceResolverOperations(
-- 
2.43.0


From 1f33010b3dcb05b3304c07582499fe200c76dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 16/65] fix: do not wait for resources inside a component on
 behalf of what encloses them

---
 sdk/python/lib/pulumi/resource.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 48f7871..b44e140 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -41,6 +41,7 @@ from .runtime.resource import (
     read_resource,
     convert_providers,
 )
+from .runtime.resource_cycle_breaker import declare_dependency
 from .runtime.settings import get_root_resource
 from .output import _is_prompt, _map_input, _map2_input, T, Output
 from . import urn as urn_util
@@ -905,6 +906,10 @@ class Resource:
             # Add this resource to its parent's set of child resources.
             opts.parent._childResources.add(self)
 
+            # Registering this resource waits for its parent, so that nothing the parent depends on may wait for this
+            # resource in turn.
+            declare_dependency(self, opts.parent)
+
             # Infer protection from parent, if one was provided.
             if opts.protect is None:
                 opts.protect = opts.parent._protect
-- 
2.43.0


From 1f310dc8e8f887da68786809af56fa75bb5e6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 17/65] fix: do not make a remote component wait for itself
 when an input depends on its parent

---
 sdk/python/lib/pulumi/runtime/resource.py |  1 +
 sdk/python/lib/pulumi/runtime/rpc.py      | 37 ++++++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 51164e9..1ff6747 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -127,6 +127,7 @@ async def prepare_resource(
         translate,
         typ,
         keep_output_values=remote,
+        from_resource=res,
     )
 
     # Wait for our parent to resolve
diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index c59a639..f6e032c 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -166,6 +166,7 @@ async def serialize_properties(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> struct_pb2.Struct:
     """
     Serializes an arbitrary Input bag into a Protobuf structure, keeping track of the list
@@ -182,6 +183,8 @@ async def serialize_properties(
     :param Dict[str, List[Resource]] property_deps: Dependencies are set here.
 
     :param input_transfomer: Optional name translator.
+
+    :param from_resource: The resource whose inputs these are, if any. It is not made to depend on itself.
     """
 
     # Default implementation of get_type that always returns None.
@@ -205,7 +208,12 @@ async def serialize_properties(
         v = inputs[k]
         deps: List["Resource"] = []
         result = await serialize_property(
-            v, deps, input_transformer, get_type(k), keep_output_values
+            v,
+            deps,
+            input_transformer,
+            get_type(k),
+            keep_output_values,
+            from_resource,
         )
         # We treat properties that serialize to None as if they don't exist.
         if result is not None:
@@ -232,6 +240,7 @@ async def serialize_property(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> Any:
     """
     Serializes a single Input into a form suitable for remoting to the engine, awaiting
@@ -261,7 +270,12 @@ async def serialize_property(
         for elem in value:
             props.append(
                 await serialize_property(
-                    elem, deps, input_transformer, element_type, keep_output_values
+                    elem,
+                    deps,
+                    input_transformer,
+                    element_type,
+                    keep_output_values,
+                    from_resource,
                 )
             )
 
@@ -360,7 +374,12 @@ async def serialize_property(
         awaitable = cast("Any", value)
         future_return = await asyncio.ensure_future(awaitable)
         return await serialize_property(
-            future_return, deps, input_transformer, typ, keep_output_values
+            future_return,
+            deps,
+            input_transformer,
+            typ,
+            keep_output_values,
+            from_resource,
         )
 
     if known_types.is_output(value):
@@ -394,7 +413,9 @@ async def serialize_property(
             promise_deps.extend(set(urn_deps))
             value_resources.update(urn_deps)
 
-            dependencies = await _expand_dependencies(value_resources, None)
+            dependencies = await _expand_dependencies(
+                value_resources, from_resource
+            )
 
             output_value: Dict[str, Any] = {_special_sig_key: _special_output_value_sig}
 
@@ -423,7 +444,12 @@ async def serialize_property(
 
         return {
             k: await serialize_property(
-                v, deps, input_transformer, types.get(k), keep_output_values
+                v,
+                deps,
+                input_transformer,
+                types.get(k),
+                keep_output_values,
+                from_resource,
             )
             for k, v in value.items()
         }
@@ -479,6 +505,7 @@ async def serialize_property(
                 input_transformer,
                 get_type(transformed_key),
                 keep_output_values,
+                from_resource,
             )
 
         return obj
-- 
2.43.0


From 4b6ae87d4a878671d71e3fd94c7498f7935f9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 18/65] fix: tolerate children created while the dependencies
 of a component are expanded

---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 1ff6747..f5e2705 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -833,7 +833,8 @@ async def _add_dependency(
     from .. import ComponentResource  # pylint: disable=import-outside-toplevel
 
     if isinstance(res, ComponentResource) and not res._remote:
-        for child in res._childResources:
+        # Children may be added while waiting for the ones found here.
+        for child in list(res._childResources):
             await _add_dependency(deps, child, from_resource)
         return
 
-- 
2.43.0


From 8c8839ab5eccf1150d41c053a71cc494bf7edf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 19/65] fix: keep unknowns inside secret and output values
 given to component providers

---
 sdk/python/lib/pulumi/runtime/rpc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index f6e032c..f49c35a 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -565,11 +565,13 @@ def deserialize_properties(
                 "Invalid archive encountered when unmarshalling resource property"
             )
         if props_struct[_special_sig_key] == _special_secret_sig:
-            return wrap_rpc_secret(deserialize_property(props_struct["value"]))
+            return wrap_rpc_secret(
+                deserialize_property(props_struct["value"], keep_unknowns)
+            )
         if props_struct[_special_sig_key] == _special_resource_sig:
             return deserialize_resource(props_struct, keep_unknowns)
         if props_struct[_special_sig_key] == _special_output_value_sig:
-            return deserialize_output_value(props_struct)
+            return deserialize_output_value(props_struct, keep_unknowns)
         raise AssertionError(
             "Unrecognized signature when unmarshalling resource property"
         )
@@ -628,14 +630,16 @@ def deserialize_resource(
     return urn
 
 
-def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
+def deserialize_output_value(
+    ref_struct: struct_pb2.Struct, keep_unknowns: Optional[bool] = None
+) -> "Output[Any]":
     is_known = "value" in ref_struct
     is_known_future: "asyncio.Future" = asyncio.Future()
     is_known_future.set_result(is_known)
 
     value = None
     if is_known:
-        value = deserialize_property(ref_struct["value"])
+        value = deserialize_property(ref_struct["value"], keep_unknowns)
     value_future: "asyncio.Future" = asyncio.Future()
     value_future.set_result(value)
 
-- 
2.43.0


From db52579e0f735dc34b8a8c1c5313ff9016db1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 20/65] fix: treat an output value with a secret inside as
 secret

---
 sdk/python/lib/pulumi/runtime/rpc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index f49c35a..1fb62c9 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -641,11 +641,12 @@ def deserialize_output_value(
     if is_known:
         value = deserialize_property(ref_struct["value"], keep_unknowns)
     value_future: "asyncio.Future" = asyncio.Future()
-    value_future.set_result(value)
+    value_future.set_result(unwrap_rpc_secret(value))
 
-    is_secret = False
+    # The output is secret if it is marked so, or if there is a secret somewhere in its value.
+    is_secret = is_rpc_secret(value)
     if "secret" in ref_struct:
-        is_secret = deserialize_property(ref_struct["secret"]) is True
+        is_secret = is_secret or deserialize_property(ref_struct["secret"]) is True
     is_secret_future: "asyncio.Future" = asyncio.Future()
     is_secret_future.set_result(is_secret)
 
-- 
2.43.0


From 0cee61d9c4ca1209ac8cd488ae36c359c2de459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:52 +0000
Subject: [PATCH 21/65] fix: track RPCs and their failures per program instead
 of per process

---
 sdk/python/lib/pulumi/automation/_server.py  |  3 +
 sdk/python/lib/pulumi/provider/server.py     |  7 +++
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 63 +++++++++++++++++---
 3 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index a714e3b..de780d9 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -46,6 +46,9 @@ class LanguageServer(LanguageRuntimeServicer):
     def Run(self, request, context):
         _suppress_unobserved_task_logging()
 
+        # This program's RPCs are its own: other programs may be running in this process.
+        RPC_MANAGER.clear()
+
         # Configure the runtime so that the user program hooks up to Pulumi as appropriate.
         engine_address = request.args[0] if request.args else ""
         reset_options(
diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 17315da..f0c7e46 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -36,6 +36,7 @@ from pulumi.resource import (
 )
 from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
+from pulumi.runtime.rpc_manager import RPC_MANAGER
 from pulumi.runtime.stack import wait_for_rpcs
 import pulumi
 import pulumi.resource
@@ -82,6 +83,9 @@ class ProviderServicer(ResourceProviderServicer):
             request, proto.ConstructRequest
         ), f"request is not ConstructRequest but is {type(request)} instead"
 
+        # Do not let the RPCs of earlier requests, or their failures, affect this request.
+        RPC_MANAGER.clear()
+
         pulumi.runtime.settings.reset_options(
             project=_empty_as_none(request.project),
             stack=_empty_as_none(request.stack),
@@ -211,6 +215,9 @@ class ProviderServicer(ResourceProviderServicer):
             request, proto.CallRequest
         ), f"request is not CallRequest but is {type(request)} instead"
 
+        # Do not let the RPCs of earlier requests, or their failures, affect this request.
+        RPC_MANAGER.clear()
+
         pulumi.runtime.settings.reset_options(
             project=_empty_as_none(request.project),
             stack=_empty_as_none(request.stack),
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 11d1d26..030ae1a 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -14,16 +14,14 @@
 import asyncio
 import sys
 import traceback
+from contextvars import ContextVar
 from typing import Callable, Awaitable, Tuple, Any, Optional, List
 from .. import log
 
 
-class RPCManager:
+class _RPCState:
     """
-    RPCManager is responsible for keeping track of RPCs that are dispatched
-    throughout the course of a Pulumi program. It records exceptions that occur
-    when performing RPC calls and keeps track of whether or not there are any
-    outstanding RPCs.
+    The state tracked by an RPCManager on behalf of one Pulumi program.
     """
 
     rpcs: List[Awaitable]
@@ -42,7 +40,56 @@ class RPCManager:
     """
 
     def __init__(self):
-        self.clear()
+        self.rpcs = []
+        self.exception_traceback = None
+        self.unhandled_exception = None
+
+
+class RPCManager:
+    """
+    RPCManager is responsible for keeping track of RPCs that are dispatched
+    throughout the course of a Pulumi program. It records exceptions that occur
+    when performing RPC calls and keeps track of whether or not there are any
+    outstanding RPCs.
+
+    Several programs may run in one process (inline programs in different threads, requests to
+    a component provider), so what is tracked belongs to the current context. `clear` starts
+    tracking afresh for the current context and all that derive from it.
+    """
+
+    def __init__(self):
+        self._state: ContextVar[_RPCState] = ContextVar(
+            "rpc_manager_state", default=_RPCState()
+        )
+
+    @property
+    def rpcs(self) -> List[Awaitable]:
+        """
+        The active RPCs.
+        """
+        return self._state.get().rpcs
+
+    @property
+    def unhandled_exception(self) -> Optional[Exception]:
+        """
+        The first unhandled exception encountered during an RPC, if any occurs.
+        """
+        return self._state.get().unhandled_exception
+
+    @unhandled_exception.setter
+    def unhandled_exception(self, exn: Optional[Exception]) -> None:
+        self._state.get().unhandled_exception = exn
+
+    @property
+    def exception_traceback(self) -> Optional[Any]:
+        """
+        The traceback associated with unhandled_exception, if any.
+        """
+        return self._state.get().exception_traceback
+
+    @exception_traceback.setter
+    def exception_traceback(self, tb: Optional[Any]) -> None:
+        self._state.get().exception_traceback = tb
 
     def do_rpc(
         self, name: str, rpc_function: Callable[..., Awaitable[Tuple[Any, Exception]]]
@@ -82,9 +129,7 @@ class RPCManager:
 
     def clear(self) -> None:
         """Clears any tracked state."""
-        self.rpcs = []
-        self.exception_traceback = None
-        self.unhandled_exception = None
+        self._state.set(_RPCState())
 
 
 RPC_MANAGER: RPCManager = RPCManager()
-- 
2.43.0


From 30cda29f0806c7579268f6326be506057c225bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 22/65] fix: give the parent named in a construct request to
 the component

---
 sdk/python/lib/pulumi/provider/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index f0c7e46..4fd0d29 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -166,7 +166,7 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     def _construct_options(request: proto.ConstructRequest) -> pulumi.ResourceOptions:
         parent = None
-        if not _empty_as_none(request.parent):
+        if _empty_as_none(request.parent):
             parent = DependencyResource(request.parent)
         return pulumi.ResourceOptions(
             aliases=list(request.aliases),
-- 
2.43.0


From f6cd7ffd20570189d9e5f0d3d4abc126cc88e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:58 +0000
Subject: [PATCH 23/65] fix: do not take a JSON null for a missing
 configuration value

---
 sdk/python/lib/pulumi/config.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/sdk/python/lib/pulumi/config.py b/sdk/python/lib/pulumi/config.py
index 4c2f75b..cc2e2d1 100644
--- a/sdk/python/lib/pulumi/config.py
+++ b/sdk/python/lib/pulumi/config.py
@@ -278,10 +278,10 @@ class Config:
         :rtype: Optional[Any]
         :raises ConfigTypeError: The configuration value existed but couldn't be coerced to float.
         """
-        config_candidate = self._get_object(
-            key, self.get_secret_object, self.get_object
-        )
-        return config_candidate if config_candidate is not None else default
+        # Note that a JSON null is a value.
+        if self._get(key) is None:
+            return default
+        return self._get_object(key, self.get_secret_object, self.get_object)
 
     def get_secret_object(
         self, key: str, default: Optional[Any] = None
@@ -298,11 +298,10 @@ class Config:
         :rtype: Optional[Any]
         :raises ConfigTypeError: The configuration value existed but couldn't be coerced to float.
         """
-        config_candidate = self._get_object(key)
-        v = config_candidate if config_candidate is not None else default
-        if v is None:
-            return None
-        return Output.secret(v)
+        # Note that a JSON null is a value.
+        if self._get(key) is None:
+            return None if default is None else Output.secret(default)
+        return Output.secret(self._get_object(key))
 
     def _require(
         self,
@@ -454,10 +453,10 @@ class Config:
         use: Optional[Callable] = None,
         instead_of: Optional[Callable] = None,
     ) -> Any:
-        v = self._get_object(key, use, instead_of)
-        if v is None:
+        # Note that a JSON null is a value.
+        if self._get(key) is None:
             raise ConfigMissingError(self.full_key(key))
-        return v
+        return self._get_object(key, use, instead_of)
 
     def require_object(self, key: str) -> Any:
         """
-- 
2.43.0


From 288a7175ce34decc1a4941e3d50d2bf38db82e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:59 +0000
Subject: [PATCH 24/65] fix: give each inline program the configuration of its
 own request only

---
 sdk/python/lib/pulumi/automation/_server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index de780d9..ac42384 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -61,9 +61,8 @@ class LanguageServer(LanguageRuntimeServicer):
             organization=request.organization,
         )
 
-        if request.config:
-            secret_keys = request.configSecretKeys if request.configSecretKeys else None
-            set_all_config(request.config, secret_keys)
+        # Set the configuration even if it is empty: what an earlier program was given is not this one's.
+        set_all_config(request.config, request.configSecretKeys)
 
         # The strategy here is derived from sdk/python/cmd/pulumi-language-python-exec
         result = language_pb2.RunResponse()
-- 
2.43.0


From 3fff6f022819f83aa953d222f371bc9a24c675d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:59 +0000
Subject: [PATCH 25/65] fix: clean up after an inline program however its
 remaining tasks end

---
 sdk/python/lib/pulumi/automation/_server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index ac42384..56b5f1c 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -16,7 +16,6 @@ import asyncio
 import logging
 import sys
 import traceback
-from contextlib import suppress
 import grpc
 
 from ._workspace import PulumiFn
@@ -105,15 +104,16 @@ class LanguageServer(LanguageRuntimeServicer):
                 if _py_version_less_than_3_7
                 else asyncio.all_tasks(loop)
             )  # pylint: disable=no-member
-            log.debug(f"Cancelling {len(pending)} tasks.")
             for task in pending:
                 task.cancel()
-                with suppress(asyncio.CancelledError):
-                    loop.run_until_complete(task)
+            if pending:
+                # How they end, by cancellation or otherwise, has no bearing on the outcome of the program.
+                loop.run_until_complete(asyncio.wait(pending))
             loop.close()
             sys.stdout.flush()
             sys.stderr.flush()
             RPC_MANAGER.clear()
+            log.debug(f"Cancelled {len(pending)} tasks.")
 
         return result
 
-- 
2.43.0


From ed1ba4442129ad64b49e4d74e2a63034416104e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 26/65] fix: carry the settings into the executor threads that
 serve monitor calls

---
 sdk/python/lib/pulumi/_utils.py           |  4 ++++
 sdk/python/lib/pulumi/runtime/invoke.py   | 11 ++++++---
 sdk/python/lib/pulumi/runtime/resource.py | 10 ++++-----
 sdk/python/lib/pulumi/runtime/settings.py | 27 +++++++++++++++++++----
 4 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/sdk/python/lib/pulumi/_utils.py b/sdk/python/lib/pulumi/_utils.py
index e8c3ddf..54180bd 100644
--- a/sdk/python/lib/pulumi/_utils.py
+++ b/sdk/python/lib/pulumi/_utils.py
@@ -207,6 +207,10 @@ class ContextProperty:
             self.__default = v
         return self._data.set(v)
 
+    def inherit(self, v: typing.Any):
+        """Sets the value in the current context to that of another, without an effect on any default."""
+        return self._data.set(v)
+
     def fdel(self, *_):
         return self._data.reset()
 
diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index 2571b23..0f88fc8 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -24,7 +24,12 @@ from ..invoke import InvokeOptions
 from ..runtime.proto import provider_pb2, resource_pb2
 from . import rpc
 from .rpc_manager import RPC_MANAGER
-from .settings import get_monitor, grpc_error_to_exception, handle_grpc_error
+from .settings import (
+    get_monitor,
+    grpc_error_to_exception,
+    handle_grpc_error,
+    run_in_executor,
+)
 from .sync_await import _sync_await
 
 if TYPE_CHECKING:
@@ -106,7 +111,7 @@ def invoke(
             except grpc.RpcError as exn:
                 return None, grpc_error_to_exception(exn)
 
-        resp, error = await asyncio.get_event_loop().run_in_executor(None, do_invoke)
+        resp, error = await run_in_executor(do_invoke)
         log.debug(f"Invoking function completed: tok={tok}, error={error}")
 
         # If the invoke failed, raise an error.
@@ -221,7 +226,7 @@ def call(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await run_in_executor(do_rpc_call)
             if resp is None:
                 return
 
diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index f5e2705..7303b41 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -38,7 +38,7 @@ from . import rpc, settings, known_types
 from .. import log
 from ..runtime.proto import provider_pb2, resource_pb2
 from .rpc_manager import RPC_MANAGER
-from .settings import handle_grpc_error
+from .settings import handle_grpc_error, run_in_executor
 from .resource_cycle_breaker import declare_dependency
 from ..output import Output
 from .. import _types
@@ -256,7 +256,7 @@ def get_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_invoke)
+            resp = await run_in_executor(do_invoke)
 
             # If the invoke failed, raise an error.
             if resp.failures:
@@ -467,7 +467,7 @@ def read_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await run_in_executor(do_rpc_call)
 
         except Exception as exn:
             log.debug(
@@ -639,7 +639,7 @@ def register_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await run_in_executor(do_rpc_call)
         except Exception as exn:
             log.debug(
                 f"exception when preparing or executing rpc: {traceback.format_exc()}"
@@ -737,7 +737,7 @@ def register_resource_outputs(
                 handle_grpc_error(exn)
                 return None
 
-        await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+        await run_in_executor(do_rpc_call)
         log.debug(
             f"resource registration successful: urn={urn}, props={serialized_props}"
         )
diff --git a/sdk/python/lib/pulumi/runtime/settings.py b/sdk/python/lib/pulumi/runtime/settings.py
index 6dfd4d9..34df7d3 100644
--- a/sdk/python/lib/pulumi/runtime/settings.py
+++ b/sdk/python/lib/pulumi/runtime/settings.py
@@ -18,14 +18,14 @@ Runtime settings and configuration.
 from __future__ import annotations
 
 import asyncio
-from contextvars import ContextVar
+from contextvars import Context, ContextVar
 import os
-from typing import Optional, Union, Any, TYPE_CHECKING
+from typing import Callable, Optional, Union, Any, TYPE_CHECKING
 
 import grpc
 from ..runtime.proto import engine_pb2_grpc, resource_pb2, resource_pb2_grpc
 from ..errors import RunError
-from .._utils import contextproperty
+from .._utils import ContextProperty, contextproperty
 
 if TYPE_CHECKING:
     from ..resource import Resource
@@ -225,6 +225,25 @@ def set_root_resource(root: "Resource"):
     ROOT.set(root)
 
 
+async def run_in_executor(func: Callable[[], Any]) -> Any:
+    """
+    Runs the given function in the event loop's default executor. The settings live in the context, which the
+    threads of an executor do not inherit, so the function is given a context with the settings of its caller.
+    """
+    values = [
+        (prop, prop.fget())
+        for prop in vars(Settings).values()
+        if isinstance(prop, ContextProperty)
+    ]
+
+    def run():
+        for prop, value in values:
+            prop.inherit(value)
+        return func()
+
+    return await asyncio.get_event_loop().run_in_executor(None, Context().run, run)
+
+
 async def monitor_supports_feature(feature: str) -> bool:
     if feature not in SETTINGS.feature_support:
         monitor = SETTINGS.monitor
@@ -245,7 +264,7 @@ async def monitor_supports_feature(feature: str) -> bool:
                     handle_grpc_error(exn)
                 return False
 
-        result = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+        result = await run_in_executor(do_rpc_call)
         SETTINGS.feature_support[feature] = result
 
     return SETTINGS.feature_support[feature]
-- 
2.43.0


From a44cb2ed94854531240fcef804242d9194c91e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 27/65] fix: do not reuse what an earlier mock monitor answered
 about features

---
 sdk/python/lib/pulumi/runtime/mocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 6615c38..1d9e05b 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -282,6 +282,8 @@ class MockEngine:
 # Because ContextVars are context-sensitive, asyncio threads lose track of external settings meddling
 class MockSettings(Settings):
     def __init__(self, *_, **kwargs):  # pylint: disable=super-init-not-called
+        # What the previous monitor supports says nothing about this one.
+        self.feature_support = {}
         for key, value in kwargs.items():
             setattr(self, key, value)
 
-- 
2.43.0


From d2708611cd8c713892b0540eed5416d78fa0d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 28/65] fix: let mocked resources without an id be referenced

---
 sdk/python/lib/pulumi/runtime/mocks.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 1d9e05b..1ae9b0e 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -219,7 +219,9 @@ class MockMonitor:
 
         urn = self.make_urn(request.parent, request.type, request.name)
 
-        self.resources[urn] = MockMonitor.ResourceRegistration(urn, id_, state)
+        self.resources[urn] = MockMonitor.ResourceRegistration(
+            urn, id_ or "", state
+        )
 
         return resource_pb2.ReadResourceResponse(urn=urn, properties=props_proto)
 
@@ -246,7 +248,9 @@ class MockMonitor:
 
         obj_proto = _sync_await(rpc.serialize_properties(state, {}))
 
-        self.resources[urn] = MockMonitor.ResourceRegistration(urn, id_, state)
+        self.resources[urn] = MockMonitor.ResourceRegistration(
+            urn, id_ or "", state
+        )
 
         return resource_pb2.RegisterResourceResponse(urn=urn, id=id_, object=obj_proto)
 
-- 
2.43.0


From f1cd6c958bae60ae7e13f5ba7cd729483e2cc433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 29/65] fix: let dict-based output types declare properties
 named like dict methods

---
 sdk/python/lib/pulumi/_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/_types.py b/sdk/python/lib/pulumi/_types.py
index 1829708..9e0fff9 100644
--- a/sdk/python/lib/pulumi/_types.py
+++ b/sdk/python/lib/pulumi/_types.py
@@ -354,6 +354,10 @@ def _properties_from_annotations(cls: type) -> Dict[str, _Property]:
 
     def get_property(cls: type, a_name: str, a_type: Any) -> _Property:
         default = getattr(cls, a_name, MISSING)
+        if not isinstance(default, _Property):
+            # A default is given by the class itself: what a base class has under that name (say, a method of `dict`)
+            # is none.
+            default = cls.__dict__.get(a_name, MISSING)
         p = (
             default
             if isinstance(default, _Property)
-- 
2.43.0


From fb6c67f6b83218bf2035fc9c7258ac2f8a5621b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 30/65] fix: treat output types with unknown parts as unknown

---
 sdk/python/lib/pulumi/runtime/rpc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 1fb62c9..b59b091 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -1016,6 +1016,8 @@ def contains_unknowns(val: Any) -> bool:
                 return any((impl(val[k], stack) for k in val))
             if isinstance(val, list):
                 return any((impl(x, stack) for x in val))
+            if _types.is_output_type(type(val)):
+                return any((impl(x, stack) for x in val.__dict__.values()))
         return False
 
     return impl(val, [])
-- 
2.43.0


From 7162589ebbb3d4059d76b3b764a78d80ad1ce07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 31/65] fix: restore the pickler after serializing a dynamic
 provider

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b4374eb..2fae0b0 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -221,6 +221,7 @@ def serialize_provider(provider: ResourceProvider) -> str:
 
     # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
     unsorted_batch_setitems = pickle.Pickler._batch_setitems
+    unsorted_save_dict = pickle.Pickler.save_dict
 
     def batch_set_items_sorted(self, items):
         unsorted_batch_setitems(self, sorted(items))
@@ -243,7 +244,10 @@ def serialize_provider(provider: ResourceProvider) -> str:
         byts = dill.dumps(provider, protocol=pickle.DEFAULT_PROTOCOL, recurse=True)
         return base64.b64encode(byts).decode("utf-8")
     finally:
-        # Restore the original pickler
+        # Restore the original pickler, and the methods of the Python pickler that we replaced:
+        # otherwise every call would wrap the wrapper of the call before it.
+        pickle._Pickler._batch_setitems = unsorted_batch_setitems
+        pickle._Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
 
 
-- 
2.43.0


From 2db615d1eb8b08d08b717c0f7a9bf64b40698fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 32/65] fix: serialize dynamic providers holding dictionaries
 with unorderable keys

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 2fae0b0..643c527 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -224,7 +224,15 @@ def serialize_provider(provider: ResourceProvider) -> str:
     unsorted_save_dict = pickle.Pickler.save_dict
 
     def batch_set_items_sorted(self, items):
-        unsorted_batch_setitems(self, sorted(items))
+        items = list(items)
+        try:
+            # Keys are unique, but compare only them, as values may not be comparable.
+            items.sort(key=lambda item: item[0])
+        except TypeError:
+            # The keys have no order of their own (e.g. they are of several types): keep the order
+            # of insertion.
+            pass
+        unsorted_batch_setitems(self, items)
 
     pickle.Pickler._batch_setitems = batch_set_items_sorted
 
-- 
2.43.0


From c0b2acf9e31d8a9ef4f79c75d4219cb271d77bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 33/65] fix: leave the props passed to a dynamic resource
 unchanged

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 643c527..e45fbac 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -289,7 +289,7 @@ class Resource(CustomResource):
         if PROVIDER_KEY in props:
             raise Exception("A dynamic resource must not define the __provider key")
 
-        props = cast(dict, props)
-        props[PROVIDER_KEY] = serialize_provider(provider)
+        # Copy the props, so that the caller's dictionary is left as it was and can be used again.
+        props = {**cast(dict, props), PROVIDER_KEY: serialize_provider(provider)}
 
         super().__init__(f"pulumi-python:{self._resource_type_name}", name, props, opts)
-- 
2.43.0


From e818d72acf295c446ab07b4eb3c0e98e4c3660db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 34/65] fix: let dynamic providers read a resource without
 outputs

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 6940155..20ad332 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -173,7 +173,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.read(id_, props)  # pylint: disable=no-member
-        outs = result.outs
+        outs = result.outs if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From e8509079e8ffcabda327f4bf6d107f381100e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 35/65] fix: report the stable properties a dynamic provider
 names in a diff

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 20ad332..472fe6c 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -82,6 +82,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             ] = proto.DiffResponse.DIFF_UNKNOWN  # pylint: disable=no-member
         if result.replaces is not None:
             fields["replaces"] = result.replaces
+        if result.stables is not None:
+            fields["stables"] = result.stables
         if result.delete_before_replace is not None:
             fields["deleteBeforeReplace"] = result.delete_before_replace
         return proto.DiffResponse(**fields)
-- 
2.43.0


From 9786186f971653bc62f8161a74763a1be72037f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 36/65] fix: recognise an unknown dynamic provider in check and
 diff

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 472fe6c..f167d0a 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -61,7 +61,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Diff(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if rpc.contains_unknowns(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
@@ -133,7 +133,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Check(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if rpc.contains_unknowns(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
-- 
2.43.0


From 308689ca73e7b8b6ed0d45b5a8e34c13b678ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 37/65] fix: let dynamic providers answer check without inputs
 or failures

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index f167d0a..9ad6cc2 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -139,8 +139,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             provider = get_provider(news)
 
         result = provider.check(olds, news)  # pylint: disable=no-member
-        inputs = result.inputs
-        failures = result.failures
+        inputs = result.inputs if result.inputs is not None else news
+        failures = result.failures if result.failures is not None else []
 
         inputs[PROVIDER_KEY] = news[PROVIDER_KEY]
 
-- 
2.43.0


From a1a50a63cc97b94370e6c5f42c576d893c73b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 38/65] fix: keep the order of ordered dictionaries in dynamic
 providers

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 30 +++++++++---------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index e45fbac..3d893b0 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -219,23 +219,9 @@ def serialize_provider(provider: ResourceProvider) -> str:
     old_pickler = pickle.Pickler
     pickle.Pickler = pickle._Pickler  # pylint: disable=protected-access
 
-    # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
-    unsorted_batch_setitems = pickle.Pickler._batch_setitems
     unsorted_save_dict = pickle.Pickler.save_dict
 
-    def batch_set_items_sorted(self, items):
-        items = list(items)
-        try:
-            # Keys are unique, but compare only them, as values may not be comparable.
-            items.sort(key=lambda item: item[0])
-        except TypeError:
-            # The keys have no order of their own (e.g. they are of several types): keep the order
-            # of insertion.
-            pass
-        unsorted_batch_setitems(self, items)
-
-    pickle.Pickler._batch_setitems = batch_set_items_sorted
-
+    # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
     def save_dict_sorted(self, obj):
         if self.bin:
             self.write(pickle.EMPTY_DICT)
@@ -243,7 +229,15 @@ def serialize_provider(provider: ResourceProvider) -> str:
             self.write(pickle.MARK + pickle.DICT)
 
         self.memoize(obj)
-        self._batch_setitems(obj.items())  # pylint: disable=protected-access
+        items = list(obj.items())
+        try:
+            # Keys are unique, but compare only them, as values may not be comparable.
+            items.sort(key=lambda item: item[0])
+        except TypeError:
+            # The keys have no order of their own (e.g. they are of several types): keep the order
+            # of insertion.
+            pass
+        self._batch_setitems(items)  # pylint: disable=protected-access
 
     pickle.Pickler.save_dict = save_dict_sorted
 
@@ -252,9 +246,7 @@ def serialize_provider(provider: ResourceProvider) -> str:
         byts = dill.dumps(provider, protocol=pickle.DEFAULT_PROTOCOL, recurse=True)
         return base64.b64encode(byts).decode("utf-8")
     finally:
-        # Restore the original pickler, and the methods of the Python pickler that we replaced:
-        # otherwise every call would wrap the wrapper of the call before it.
-        pickle._Pickler._batch_setitems = unsorted_batch_setitems
+        # Restore the original pickler, and the method of the Python pickler that we replaced.
         pickle._Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
 
-- 
2.43.0


From e8f1a49532013d34d52d78862613767d38985afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 39/65] fix: wait for complete lines when watching the event
 log

---
 sdk/python/lib/pulumi/automation/_stack.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 01816aa..82ab857 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -813,16 +813,19 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
 
 
 def _watch_logs(filename: str, callback: OnEvent):
-    with open(filename, encoding="utf-8") as f:
+    # The file is read as bytes, as it may end within a character for now.
+    with open(filename, "rb") as f:
+        line = b""
         while True:
-            line = f.readline()
+            line += f.readline()
 
-            # sleep if file hasn't been updated
-            if not line:
+            # sleep if file hasn't been updated, or its last line is still being written
+            if not line.endswith(b"\n"):
                 time.sleep(0.1)
                 continue
 
             event = EngineEvent.from_json(json.loads(line))
+            line = b""
             callback(event)
 
             # if this is the cancel event, stop watching logs.
-- 
2.43.0


From ac3a311b8b078e19cc794f5527348b96622c656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 40/65] fix: stop watching the event log when the operation has
 ended

---
 sdk/python/lib/pulumi/automation/_stack.py | 43 +++++++++++++++-------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 82ab857..34f03ef 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -291,9 +291,7 @@ class Stack:
         if on_event:
             log_file, temp_dir = _create_log_file("up")
             args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
+            log_watcher_thread = _LogWatcher(log_file, on_event)
             log_watcher_thread.start()
 
         try:
@@ -409,9 +407,7 @@ class Stack:
                 on_event(event)
 
         # Start watching logs in a thread
-        log_watcher_thread = threading.Thread(
-            target=_watch_logs, args=(log_file, on_event_callback)
-        )
+        log_watcher_thread = _LogWatcher(log_file, on_event_callback)
         log_watcher_thread.start()
 
         try:
@@ -478,9 +474,7 @@ class Stack:
         if on_event:
             log_file, temp_dir = _create_log_file("refresh")
             args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
+            log_watcher_thread = _LogWatcher(log_file, on_event)
             log_watcher_thread.start()
 
         try:
@@ -543,9 +537,7 @@ class Stack:
         if on_event:
             log_file, temp_dir = _create_log_file("destroy")
             args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
-            )
+            log_watcher_thread = _LogWatcher(log_file, on_event)
             log_watcher_thread.start()
 
         try:
@@ -812,15 +804,37 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
     return filepath, log_dir
 
 
-def _watch_logs(filename: str, callback: OnEvent):
+class _LogWatcher(threading.Thread):
+    """A thread that watches the log of an operation, at most until the operation has ended."""
+
+    def __init__(self, filename: str, callback: OnEvent) -> None:
+        super().__init__()
+        self._filename = filename
+        self._callback = callback
+        self._ended = threading.Event()
+
+    def run(self) -> None:
+        _watch_logs(self._filename, self._callback, self._ended)
+
+    def stop(self) -> None:
+        """Signals that the operation has ended: nothing is added to the log any more."""
+        self._ended.set()
+
+
+def _watch_logs(filename: str, callback: OnEvent, ended: threading.Event):
     # The file is read as bytes, as it may end within a character for now.
     with open(filename, "rb") as f:
         line = b""
         while True:
+            # ask this before reading, as what was written until the end is still to be read
+            has_ended = ended.is_set()
             line += f.readline()
 
             # sleep if file hasn't been updated, or its last line is still being written
             if not line.endswith(b"\n"):
+                # a failed operation may never have written the cancel event
+                if has_ended:
+                    break
                 time.sleep(0.1)
                 continue
 
@@ -835,7 +849,7 @@ def _watch_logs(filename: str, callback: OnEvent):
 
 def _cleanup(
     temp_dir: Optional[tempfile.TemporaryDirectory],
-    thread: Optional[threading.Thread],
+    thread: Optional[_LogWatcher],
     on_exit_fn: Optional[Callable[[], None]] = None,
 ) -> None:
     # If there's an on_exit function, execute it (used in preview/up to shut down server)
@@ -843,6 +857,7 @@ def _cleanup(
         on_exit_fn()
     # If we started a thread to watch logs, wait for it to terminate, timing out after 5 seconds.
     if thread:
+        thread.stop()
         thread.join(5)
     # If we created a temp_dir for the logs, clean up.
     if temp_dir:
-- 
2.43.0


From 301361d05df81e4965cc628360dbfa9e754e8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 41/65] fix: read the fields of engine events under the names
 the engine gives them

---
 sdk/python/lib/pulumi/automation/events.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 9afae4e..cec2a4f 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -132,7 +132,7 @@ class DiagnosticEvent(BaseEvent):
             message=data.get("message", ""),
             color=data.get("color", ""),
             severity=data.get("severity", ""),
-            stream_id=data.get("streamId"),
+            stream_id=data.get("streamID"),
             ephemeral=data.get("ephemeral"),
             urn=data.get("urn"),
             prefix=data.get("prefix"),
@@ -193,7 +193,7 @@ class PolicyEvent(BaseEvent):
             policy_pack_version=data.get("policyPackVersion", ""),
             policy_pack_version_tag=data.get("policyPackVersionTag", ""),
             enforcement_level=data.get("enforcementLevel", ""),
-            resource_urn=data.get("resource_urn"),
+            resource_urn=data.get("resourceUrn"),
         )
 
 
@@ -437,6 +437,7 @@ class StepEventMetadata(BaseEvent):
     def from_json(cls, data: dict) -> "StepEventMetadata":
         old = data.get("old")
         new = data.get("new")
+        detailed_diff = data.get("detailedDiff")
 
         return cls(
             op=OpType(data.get("op", "")),
@@ -447,7 +448,12 @@ class StepEventMetadata(BaseEvent):
             new=StepEventStateMetadata.from_json(new) if new else None,
             keys=data.get("keys"),
             diffs=data.get("diffs"),
-            detailed_diff=data.get("detailed_diff"),
+            detailed_diff={
+                path: PropertyDiff.from_json(diff)
+                for path, diff in detailed_diff.items()
+            }
+            if detailed_diff
+            else None,
             logical=data.get("logical"),
         )
 
-- 
2.43.0


From 034c7f0dca4ee2d321a0c928a283ef223b3c2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 42/65] fix: keep stack config values of all types when loading
 stack settings

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index 6b467fa..b8c1878 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -50,10 +50,11 @@ class StackSettings:
         if config is not None:
             stack_config: Dict[str, Any] = {}
             for key, val in config.items():
-                if isinstance(val, str):
-                    stack_config[key] = val
-                elif "secure" in val:
+                # Everything but a secret is kept as it is, whatever its type.
+                if isinstance(val, dict) and list(val) == ["secure"]:
                     stack_config[key] = StackSettingsSecureConfigValue(**val)
+                else:
+                    stack_config[key] = val
             config = stack_config
         return cls(
             secrets_provider=data.get("secretsprovider"),
-- 
2.43.0


From 6abb154da3859453ca35c64639c839708bc86a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 43/65] fix: pass the log verbosity to the CLI as a string

---
 sdk/python/lib/pulumi/automation/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 34f03ef..e98057e 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -763,7 +763,7 @@ def _parse_extra_args(**kwargs) -> List[str]:
     if log_flow:
         extra_args.extend(["--logflow"])
     if log_verbosity:
-        extra_args.extend(["--verbose", log_verbosity])
+        extra_args.extend(["--verbose", str(log_verbosity)])
     if log_to_std_err:
         extra_args.extend(["--logtostderr"])
     if tracing:
-- 
2.43.0


From 196ad3284ef6bab7a275896c5024e27f3373fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 44/65] fix: remove the temporary file of a stack import that
 fails

---
 .../lib/pulumi/automation/_local_workspace.py      | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 84e6837..933338e 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -347,11 +347,15 @@ class LocalWorkspace(Workspace):
 
     def import_stack(self, stack_name: str, state: Deployment) -> None:
         with tempfile.NamedTemporaryFile(mode="w", delete=False) as file:
-            json.dump(state.__dict__, file, indent=4)
-        self._run_pulumi_cmd_sync(
-            ["stack", "import", "--file", file.name, "--stack", stack_name]
-        )
-        os.remove(file.name)
+            try:
+                json.dump(state.__dict__, file, indent=4)
+                file.close()
+                self._run_pulumi_cmd_sync(
+                    ["stack", "import", "--file", file.name, "--stack", stack_name]
+                )
+            finally:
+                file.close()
+                os.remove(file.name)
 
     def stack_outputs(self, stack_name: str) -> OutputMap:
         masked_result = self._run_pulumi_cmd_sync(
-- 
2.43.0


From 48402860a7397b5ae40925a40e4ad13798661ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 45/65] fix: accept updates whose secret config values are not
 shown

---
 sdk/python/lib/pulumi/automation/_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index e98057e..457cdbb 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -79,7 +79,9 @@ class UpdateSummary:
         for key in config:
             config_value = config[key]
             self.config[key] = ConfigValue(
-                value=config_value["value"], secret=config_value["secret"]
+                # The value of a secret is left out unless secrets are to be shown.
+                value=config_value.get("value"),
+                secret=config_value["secret"],
             )
 
     def __repr__(self):
-- 
2.43.0


From 4b8955e7df8e5575a2ebc0f35aaff0d28927b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 46/65] fix: list updates that are in progress in the history
 of a stack

---
 sdk/python/lib/pulumi/automation/_stack.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 457cdbb..a2cb094 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -61,7 +61,7 @@ class UpdateSummary:
         config: Mapping[str, dict],
         # post-update info
         result: str,
-        end_time: datetime,
+        end_time: Optional[datetime],
         version: Optional[int] = None,
         deployment: Optional[str] = None,
         resource_changes: Optional[OpMap] = None,
@@ -653,7 +653,10 @@ class Stack:
                 environment=summary_json["environment"],
                 config=summary_json["config"],
                 result=summary_json["result"],
-                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT),
+                # An update in progress has no end yet.
+                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT)
+                if "endTime" in summary_json
+                else None,
                 version=summary_json["version"] if "version" in summary_json else None,
                 deployment=summary_json["Deployment"]
                 if "Deployment" in summary_json
-- 
2.43.0


From 6ec65fd990d89764d0b19103ff7fd44932f523c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 47/65] fix: list plugins that were never used

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 933338e..29dc97f 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -327,7 +327,9 @@ class LocalWorkspace(Workspace):
                 size=plugin_json["size"],
                 last_used_time=datetime.strptime(
                     plugin_json["lastUsedTime"], _DATETIME_FORMAT
-                ),
+                )
+                if "lastUsedTime" in plugin_json
+                else None,
                 install_time=datetime.strptime(
                     plugin_json["installTime"], _DATETIME_FORMAT
                 )
-- 
2.43.0


From c81ac56190f0902d5e350764aac9d45f1bbfe784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 48/65] fix: leave the workspace options of the caller
 unchanged

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 29dc97f..a02df63 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
 import os
 import tempfile
 import json
@@ -566,7 +567,8 @@ def _inline_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # The options are the caller's, who may use them again: change a copy.
+    workspace_options = copy.copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.program = program
 
     if not workspace_options.project_settings:
@@ -593,7 +595,8 @@ def _local_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # The options are the caller's, who may use them again: change a copy.
+    workspace_options = copy.copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.work_dir = work_dir
 
     ws = LocalWorkspace(**workspace_options.__dict__)
-- 
2.43.0


From 49b33238d9d8923759f82e44415be9a6ebd9bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 49/65] fix: set the documented attribute of plugin infos

---
 sdk/python/lib/pulumi/automation/_workspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index 2db0944..69d3d70 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -81,6 +81,7 @@ class PluginInfo:
         self.kind = kind
         self.size = size
         self.install_time = install_time
+        self.last_used_time = last_used_time
         self.last_used = last_used_time
         self.version = version
 
-- 
2.43.0


From ac2bbc2d68759692f291c86a3294989c8f123322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 50/65] fix: load empty stack settings files

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index a02df63..d166b12 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -166,7 +166,8 @@ class LocalWorkspace(Workspace):
                 continue
             with open(path, "r", encoding="utf-8") as file:
                 settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-                return StackSettings._deserialize(settings)
+                # An empty file holds no settings.
+                return StackSettings._deserialize(settings or {})
         raise FileNotFoundError(
             f"failed to find stack settings file in workdir: {self.work_dir}"
         )
-- 
2.43.0


From c673df944e1a6cbe66f34650c9554ec0af6da639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:06 +0000
Subject: [PATCH 51/65] fix: write and read the structured parts of project
 settings as such

---
 .../lib/pulumi/automation/_local_workspace.py |  8 +---
 .../pulumi/automation/_project_settings.py    | 40 +++++++++++++++++++
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index d166b12..b28eec0 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -147,11 +147,7 @@ class LocalWorkspace(Workspace):
                 found_ext = ext
                 break
         path = os.path.join(self.work_dir, f"Pulumi{found_ext}")
-        writable_settings = {
-            key: settings.__dict__[key]
-            for key in settings.__dict__
-            if settings.__dict__[key] is not None
-        }
+        writable_settings = settings._serialize()
         with open(path, "w", encoding="utf-8") as file:
             if found_ext == ".json":
                 json.dump(writable_settings, file, indent=4)
@@ -655,7 +651,7 @@ def _load_project_settings(work_dir: str) -> ProjectSettings:
             continue
         with open(project_path, "r", encoding="utf-8") as file:
             settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-            return ProjectSettings(**settings)
+            return ProjectSettings._deserialize(settings)
     raise FileNotFoundError(
         f"failed to find project settings file in workdir: {work_dir}"
     )
diff --git a/sdk/python/lib/pulumi/automation/_project_settings.py b/sdk/python/lib/pulumi/automation/_project_settings.py
index 33f70af..bd1e468 100644
--- a/sdk/python/lib/pulumi/automation/_project_settings.py
+++ b/sdk/python/lib/pulumi/automation/_project_settings.py
@@ -74,6 +74,23 @@ class ProjectBackend:
         self.url = url
 
 
+def _serialize_value(value: Any) -> Any:
+    """What is written to the project file for a setting: names and values of the parts that are set."""
+    if isinstance(
+        value,
+        (
+            ProjectRuntimeInfo,
+            ProjectTemplateConfigValue,
+            ProjectTemplate,
+            ProjectBackend,
+        ),
+    ):
+        value = {k: v for k, v in value.__dict__.items() if v is not None}
+    if isinstance(value, Mapping):
+        return {k: _serialize_value(v) for k, v in value.items()}
+    return value
+
+
 class ProjectSettings:
     """A Pulumi project manifest. It describes metadata applying to all sub-stacks created from the project."""
 
@@ -121,3 +138,26 @@ class ProjectSettings:
         self.config = config
         self.template = template
         self.backend = backend
+
+    @classmethod
+    def _deserialize(cls, data: dict) -> "ProjectSettings":
+        settings = dict(data)
+        if isinstance(settings.get("runtime"), dict):
+            settings["runtime"] = ProjectRuntimeInfo(**settings["runtime"])
+        if isinstance(settings.get("template"), dict):
+            template = dict(settings["template"])
+            template["config"] = {
+                key: ProjectTemplateConfigValue(**(value or {}))
+                for key, value in (template.get("config") or {}).items()
+            }
+            settings["template"] = ProjectTemplate(**template)
+        if isinstance(settings.get("backend"), dict):
+            settings["backend"] = ProjectBackend(**settings["backend"])
+        return cls(**settings)
+
+    def _serialize(self) -> dict:
+        return {
+            key: _serialize_value(value)
+            for key, value in self.__dict__.items()
+            if value is not None
+        }
-- 
2.43.0


From 1ce2fc094f669e0ddb6a7c6987220c89dd16212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 52/65] fix: load and keep project settings the SDK has no
 attribute for

---
 .../lib/pulumi/automation/_project_settings.py     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_project_settings.py b/sdk/python/lib/pulumi/automation/_project_settings.py
index bd1e468..581af9c 100644
--- a/sdk/python/lib/pulumi/automation/_project_settings.py
+++ b/sdk/python/lib/pulumi/automation/_project_settings.py
@@ -138,10 +138,13 @@ class ProjectSettings:
         self.config = config
         self.template = template
         self.backend = backend
+        self._additional_keys: Mapping[str, Any] = {}
 
     @classmethod
     def _deserialize(cls, data: dict) -> "ProjectSettings":
-        settings = dict(data)
+        # Keys without an attribute here, such as options and plugins, are kept for _serialize.
+        settings = {k: v for k, v in data.items() if k in cls.__annotations__}
+        additional_keys = {k: v for k, v in data.items() if k not in settings}
         if isinstance(settings.get("runtime"), dict):
             settings["runtime"] = ProjectRuntimeInfo(**settings["runtime"])
         if isinstance(settings.get("template"), dict):
@@ -153,11 +156,14 @@ class ProjectSettings:
             settings["template"] = ProjectTemplate(**template)
         if isinstance(settings.get("backend"), dict):
             settings["backend"] = ProjectBackend(**settings["backend"])
-        return cls(**settings)
+        project = cls(**settings)
+        project._additional_keys = additional_keys
+        return project
 
     def _serialize(self) -> dict:
-        return {
+        settings = {
             key: _serialize_value(value)
             for key, value in self.__dict__.items()
-            if value is not None
+            if key != "_additional_keys" and value is not None
         }
+        return {**self._additional_keys, **settings}
-- 
2.43.0


From 8754024927449e35dfefb66e03b310788153414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 53/65] fix: an empty CLI version is an invalid version, not an
 IndexError

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index b28eec0..d3d4f12 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -375,7 +375,7 @@ class LocalWorkspace(Workspace):
     def _get_pulumi_version(self) -> str:
         result = self._run_pulumi_cmd_sync(["version"])
         version_string = result.stdout.strip()
-        if version_string[0] == "v":
+        if version_string.startswith("v"):
             version_string = version_string[1:]
         return version_string
 
-- 
2.43.0


From 74f95b6e0e2c86d98e9ed17082551418a02600a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 54/65] fix: a resource can be read by a secret ID

---
 sdk/python/lib/pulumi/runtime/resource.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 7303b41..35d74c4 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -421,7 +421,11 @@ def read_resource(
             # because a "read" resource does not actually have any dependencies at all in the cloud
             # provider sense, because a read resource already exists. We do not need to track this
             # dependency.
-            resolved_id = await rpc.serialize_property(opts.id, [])
+            serialized_id = await rpc.serialize_property(opts.id, [])
+
+            # The engine takes the ID as a plain string, whether it is a secret or not.
+            is_id_secret = rpc.is_rpc_secret(serialized_id)
+            resolved_id = rpc.unwrap_rpc_secret(serialized_id)
             log.debug(f"read prepared: ty={ty}, name={name}, id={opts.id}")
 
             # These inputs will end up in the snapshot, so if there are any additional secret
-- 
2.43.0


From 86580c33937d167249c3b39a9dfc8276cb7590d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 55/65] fix: the ID of a read resource is unknown when the ID
 given is

---
 sdk/python/lib/pulumi/runtime/resource.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 35d74c4..04f0a4a 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -484,7 +484,9 @@ def read_resource(
 
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
-        resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
+        # The ID is known unless it comes from a resource that is yet to be created.
+        is_id_known = resolved_id != rpc.UNKNOWN
+        resolve_id(resolved_id if is_id_known else None, is_id_known, is_id_secret, None)
 
         # As in `register_resource`, this can itself throw an exception, which must reach the
         # outputs or else anything awaiting them would hang.
-- 
2.43.0


From 60e9e09e8df1c33da1c65a07b6ec52ee4491ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 56/65] fix: stack outputs can be named by a coroutine

---
 sdk/python/lib/pulumi/stack_reference.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/stack_reference.py b/sdk/python/lib/pulumi/stack_reference.py
index ab48a81..2f79a2f 100644
--- a/sdk/python/lib/pulumi/stack_reference.py
+++ b/sdk/python/lib/pulumi/stack_reference.py
@@ -73,7 +73,9 @@ class StackReference(CustomResource):
 
         :param Input[str] name: The name of the stack output to fetch.
         """
-        value: Output[Any] = Output.all(Output.from_input(name), self.outputs).apply(lambda l: l[1].get(l[0]))  # type: ignore
+        # The name is used twice, and an awaitable may be awaited only once.
+        name = Output.from_input(name)
+        value: Output[Any] = Output.all(name, self.outputs).apply(lambda l: l[1].get(l[0]))  # type: ignore
         is_secret = ensure_future(self.__is_secret_name(name))
 
         return Output(value.resources(), value.future(), value.is_known(), is_secret)
@@ -85,8 +87,9 @@ class StackReference(CustomResource):
 
         :param Input[str] name: The name of the stack output to fetch.
         """
-
-        value = Output.all(Output.from_input(name), self.outputs).apply(lambda l: l[1][l[0]])  # type: ignore
+        # The name is used twice, and an awaitable may be awaited only once.
+        name = Output.from_input(name)
+        value = Output.all(name, self.outputs).apply(lambda l: l[1][l[0]])  # type: ignore
         is_secret = ensure_future(self.__is_secret_name(name))
 
         return Output(value.resources(), value.future(), value.is_known(), is_secret)
-- 
2.43.0


From f604ff1630316f08d17258d8c4d5f5af1013eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 57/65] fix: a cancelled awaitable fails the program rather
 than hanging it

---
 sdk/python/lib/pulumi/_utils.py              | 12 ++++++++++++
 sdk/python/lib/pulumi/provider/server.py     |  5 +++--
 sdk/python/lib/pulumi/runtime/invoke.py      |  7 +++++--
 sdk/python/lib/pulumi/runtime/resource.py    | 17 +++++++++++++----
 sdk/python/lib/pulumi/runtime/rpc_manager.py |  5 ++++-
 5 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/sdk/python/lib/pulumi/_utils.py b/sdk/python/lib/pulumi/_utils.py
index 54180bd..33e1f37 100644
--- a/sdk/python/lib/pulumi/_utils.py
+++ b/sdk/python/lib/pulumi/_utils.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import asyncio
 from contextvars import ContextVar
 import importlib
 import sys
@@ -122,6 +123,17 @@ def lazy_import(fullname):
     return module
 
 
+async def fail_if_cancelled(awaitable: typing.Awaitable) -> typing.Any:
+    """
+    Awaits the given awaitable. Should something that it waits for have been cancelled, raises an ordinary exception:
+    `asyncio.CancelledError` isn't one, so it would bypass whatever takes care of failures.
+    """
+    try:
+        return await awaitable
+    except asyncio.CancelledError as exn:
+        raise Exception("an awaitable was cancelled while waiting for it") from exn
+
+
 def contextproperty(fn=None, *, default: typing.Optional[typing.Any] = None):
     """Decorator interface for ContextProperty
 
diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 4fd0d29..491add1 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -38,6 +38,7 @@ from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
 from pulumi.runtime.rpc_manager import RPC_MANAGER
 from pulumi.runtime.stack import wait_for_rpcs
+from pulumi._utils import fail_if_cancelled
 import pulumi
 import pulumi.resource
 import pulumi.runtime.config
@@ -107,7 +108,7 @@ class ProviderServicer(ResourceProviderServicer):
             options=self._construct_options(request),
         )
 
-        response = await self._construct_response(result)
+        response = await fail_if_cancelled(self._construct_response(result))
 
         # Wait for outstanding RPCs such as more provider Construct
         # calls. This can happen if i.e. provider creates child
@@ -235,7 +236,7 @@ class ProviderServicer(ResourceProviderServicer):
 
         result = self.provider.call(token=request.tok, args=args)
 
-        response = await self._call_response(result)
+        response = await fail_if_cancelled(self._call_response(result))
 
         # Wait for outstanding RPCs such as more provider Construct
         # calls. This can happen if i.e. provider creates child
diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index 0f88fc8..21f8d33 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -20,6 +20,7 @@ import grpc
 
 from .. import log
 from .. import _types
+from .._utils import fail_if_cancelled
 from ..invoke import InvokeOptions
 from ..runtime.proto import provider_pb2, resource_pb2
 from . import rpc
@@ -196,8 +197,10 @@ def call(
             # by any Dependency objects we encounter, adding them to 'implicit_dependencies'.
             property_dependencies_resources: Dict[str, List["Resource"]] = {}
             # We keep output values when serializing inputs for call.
-            inputs = await rpc.serialize_properties(
-                props, property_dependencies_resources, keep_output_values=True
+            inputs = await fail_if_cancelled(
+                rpc.serialize_properties(
+                    props, property_dependencies_resources, keep_output_values=True
+                )
             )
 
             property_dependencies = {}
diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 04f0a4a..d81d82c 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -42,6 +42,7 @@ from .settings import handle_grpc_error, run_in_executor
 from .resource_cycle_breaker import declare_dependency
 from ..output import Output
 from .. import _types
+from .._utils import fail_if_cancelled
 from .. import urn as urn_util
 
 
@@ -241,7 +242,9 @@ def get_resource(
 
     async def do_get():
         try:
-            resolver = await prepare_resource(res, ty, custom, False, props, None, typ)
+            resolver = await fail_if_cancelled(
+                prepare_resource(res, ty, custom, False, props, None, typ)
+            )
 
             monitor = settings.get_monitor()
             inputs = await rpc.serialize_properties({"urn": urn}, {})
@@ -414,14 +417,18 @@ def read_resource(
 
     async def do_read():
         try:
-            resolver = await prepare_resource(res, ty, True, False, props, opts, typ)
+            resolver = await fail_if_cancelled(
+                prepare_resource(res, ty, True, False, props, opts, typ)
+            )
 
             # Resolve the ID that we were given. Note that we are explicitly discarding the list of
             # dependencies returned to us from "serialize_property" (the second argument). This is
             # because a "read" resource does not actually have any dependencies at all in the cloud
             # provider sense, because a read resource already exists. We do not need to track this
             # dependency.
-            serialized_id = await rpc.serialize_property(opts.id, [])
+            serialized_id = await fail_if_cancelled(
+                rpc.serialize_property(opts.id, [])
+            )
 
             # The engine takes the ID as a plain string, whether it is a secret or not.
             is_id_secret = rpc.is_rpc_secret(serialized_id)
@@ -552,7 +559,9 @@ def register_resource(
 
     async def do_register():
         try:
-            resolver = await prepare_resource(res, ty, custom, remote, props, opts, typ)
+            resolver = await fail_if_cancelled(
+                prepare_resource(res, ty, custom, remote, props, opts, typ)
+            )
             log.debug(f"resource registration prepared: ty={ty}, name={name}")
 
             property_dependencies = {}
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 030ae1a..a57ba35 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -17,6 +17,7 @@ import traceback
 from contextvars import ContextVar
 from typing import Callable, Awaitable, Tuple, Any, Optional, List
 from .. import log
+from .._utils import fail_if_cancelled
 
 
 class _RPCState:
@@ -109,7 +110,9 @@ class RPCManager:
         async def rpc_wrapper(*args, **kwargs):
             log.debug(f"beginning rpc {name}")
 
-            rpc = asyncio.ensure_future(rpc_function(*args, **kwargs))
+            rpc = asyncio.ensure_future(
+                fail_if_cancelled(rpc_function(*args, **kwargs))
+            )
             self.rpcs.append(rpc)
             try:
                 result = await rpc
-- 
2.43.0


From 81a081c14be33268d6e4e52ebb9b2197551a1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 58/65] fix: a program may cancel tasks of its own

---
 sdk/python/lib/pulumi/runtime/stack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index c5c694d..d76c393 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -102,6 +102,9 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
                         task.cancel()
 
                 for task in done:
+                    # The program may cancel its own tasks.
+                    if task.cancelled():
+                        continue
                     exception = task.exception()
                     if exception is not None:
                         log.debug(
-- 
2.43.0


From f801ddaca1e0ff7d34a6458d2537f178edb35ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 59/65] fix: a program waits for the tasks started while it
 waits

---
 sdk/python/lib/pulumi/runtime/stack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index d76c393..2e88946 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -115,8 +115,10 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
                 log.debug("All outstanding tasks completed.")
 
         # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
-        # Break if no RPCs remain.
-        if len(RPC_MANAGER.rpcs) == 0:
+        # Break if no RPCs remain. Tasks started in the meantime may yet schedule some.
+        if len(RPC_MANAGER.rpcs) == 0 and not (
+            await_all_outstanding_tasks and _get_running_tasks()
+        ):
             break
 
 
-- 
2.43.0


From 7225eeeb260ab46c09f588e1589097835c550e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 60/65] fix: an inline program that ends abnormally is answered
 as it ended

---
 sdk/python/lib/pulumi/automation/_server.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 56b5f1c..6b9d266 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -70,9 +70,10 @@ class LanguageServer(LanguageRuntimeServicer):
         try:
             loop.run_until_complete(run_in_stack(self.program))
         except RunError as exn:
-            msg = str(exn)
+            # An empty error stands for success.
+            msg = str(exn) or repr(exn)
             log.error(msg)
-            result.error = str(msg)
+            result.error = msg
             return result
         except grpc.RpcError as exn:
             # If the monitor is unavailable, it is in the process of shutting down or has already
@@ -85,7 +86,14 @@ class LanguageServer(LanguageRuntimeServicer):
                 log.error(msg)
                 result.error = msg
                 return result
-        except Exception as exn:
+        except SystemExit as exn:
+            # The program is free to end itself, which isn't to end the server: the engine awaits its result.
+            if exn.code not in (None, 0):
+                msg = f"python inline source exited with: {exn.code}"
+                log.error(msg)
+                result.error = msg
+                return result
+        except BaseException as exn:
             msg = str(
                 f"python inline source runtime error: {exn}\n{traceback.format_exc()}"
             )
-- 
2.43.0


From 45561ac5a7e740b5f710da7a2f4c1a3686787095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 61/65] fix: an inline program that ends leaves the settings of
 its caller alone

---
 sdk/python/lib/pulumi/automation/_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 6b9d266..23268f5 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import contextvars
 import logging
 import sys
 import traceback
@@ -36,8 +37,8 @@ class LanguageServer(LanguageRuntimeServicer):
 
     @staticmethod
     def on_pulumi_exit():
-        # Reset globals
-        reset_options()
+        # Reset globals, but leave the settings of the caller as they are: it may be a Pulumi program itself.
+        contextvars.Context().run(reset_options)
 
     def GetRequiredPlugins(self, request, context):
         return language_pb2.GetRequiredPluginsResponse()
-- 
2.43.0


From dc924e0e383ccd140175cf615cfc33f2f56cd742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 62/65] fix: the failure of an output that nothing waits for
 fails the program

---
 sdk/python/lib/pulumi/output.py              |  1 +
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 32 ++++++++++++++++++++
 sdk/python/lib/pulumi/runtime/stack.py       |  8 +++++
 3 files changed, 41 insertions(+)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 5acea37..f46354a 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -105,6 +105,7 @@ class Output(Generic[T_co]):
             self._resources = asyncio.ensure_future(resources)
 
         self._future = future
+        runtime.rpc_manager.RPC_MANAGER.watch_output(future)
         self._is_known = asyncio.ensure_future(is_value_known())
 
         if is_secret is not None:
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index a57ba35..1adcc3d 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -40,8 +40,14 @@ class _RPCState:
     The traceback associated with unhandled_exception, if any.
     """
 
+    output_exception: Optional[BaseException]
+    """
+    The first exception that the value of an output failed with, if any does.
+    """
+
     def __init__(self):
         self.rpcs = []
+        self.output_exception = None
         self.exception_traceback = None
         self.unhandled_exception = None
 
@@ -92,6 +98,32 @@ class RPCManager:
     def exception_traceback(self, tb: Optional[Any]) -> None:
         self._state.get().exception_traceback = tb
 
+    @property
+    def output_exception(self) -> Optional[BaseException]:
+        """
+        The first exception that the value of an output failed with, if any does.
+        """
+        return self._state.get().output_exception
+
+    @output_exception.setter
+    def output_exception(self, exn: Optional[BaseException]) -> None:
+        self._state.get().output_exception = exn
+
+    def watch_output(self, future: asyncio.Future) -> None:
+        """
+        Takes note of a failure of the given value of an output, as there need not be anything that waits for it.
+        """
+        state = self._state.get()
+
+        def done(fut: asyncio.Future) -> None:
+            if state.output_exception is None and not fut.cancelled():
+                state.output_exception = fut.exception()
+
+        if future.done():
+            done(future)
+        else:
+            future.add_done_callback(done)
+
     def do_rpc(
         self, name: str, rpc_function: Callable[..., Awaitable[Tuple[Any, Exception]]]
     ) -> Callable[..., Awaitable[Tuple[Any, Exception]]]:
diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 2e88946..4bfffe4 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -45,6 +45,8 @@ def _get_running_tasks() -> List[asyncio.Task]:
 
 
 async def run_pulumi_func(func: Callable):
+    # What failed before is no concern of this function.
+    RPC_MANAGER.output_exception = None
     try:
         func()
     finally:
@@ -119,6 +121,12 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
         if len(RPC_MANAGER.rpcs) == 0 and not (
             await_all_outstanding_tasks and _get_running_tasks()
         ):
+            if await_all_outstanding_tasks:
+                # An output that failed while something else was waited for must not go unnoticed.
+                # What has completed just now will only call back in the loop's next iteration.
+                await asyncio.sleep(0)
+                if RPC_MANAGER.output_exception is not None:
+                    raise RPC_MANAGER.output_exception
             break
 
 
-- 
2.43.0


From 0fb7502b062cf7f60405bf6353c9765c4f374037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 63/65] fix: a component provider answers once its callbacks
 are through

---
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 19 +++++++++++--
 sdk/python/lib/pulumi/runtime/stack.py       | 28 +++++++++++++-------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 1adcc3d..798092d 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -15,7 +15,7 @@ import asyncio
 import sys
 import traceback
 from contextvars import ContextVar
-from typing import Callable, Awaitable, Tuple, Any, Optional, List
+from typing import Callable, Awaitable, Tuple, Any, Optional, List, Set
 from .. import log
 from .._utils import fail_if_cancelled
 
@@ -45,8 +45,14 @@ class _RPCState:
     The first exception that the value of an output failed with, if any does.
     """
 
+    outputs: Set[asyncio.Future]
+    """
+    The values of outputs that are yet to be resolved.
+    """
+
     def __init__(self):
         self.rpcs = []
+        self.outputs = set()
         self.output_exception = None
         self.exception_traceback = None
         self.unhandled_exception = None
@@ -98,6 +104,13 @@ class RPCManager:
     def exception_traceback(self, tb: Optional[Any]) -> None:
         self._state.get().exception_traceback = tb
 
+    @property
+    def outputs(self) -> Set[asyncio.Future]:
+        """
+        The values of outputs that are yet to be resolved.
+        """
+        return self._state.get().outputs
+
     @property
     def output_exception(self) -> Optional[BaseException]:
         """
@@ -111,17 +124,19 @@ class RPCManager:
 
     def watch_output(self, future: asyncio.Future) -> None:
         """
-        Takes note of a failure of the given value of an output, as there need not be anything that waits for it.
+        Keeps track of the given value of an output, as there need not be anything else that waits for it.
         """
         state = self._state.get()
 
         def done(fut: asyncio.Future) -> None:
+            state.outputs.discard(fut)
             if state.output_exception is None and not fut.cancelled():
                 state.output_exception = fut.exception()
 
         if future.done():
             done(future)
         else:
+            state.outputs.add(future)
             future.add_done_callback(done)
 
     def do_rpc(
diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 4bfffe4..43e7f57 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -79,6 +79,10 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
                 RPC_MANAGER.exception_traceback
             )
 
+        # An output that failed while something else was waited for must not go unnoticed.
+        if RPC_MANAGER.output_exception is not None:
+            raise RPC_MANAGER.output_exception
+
         log.debug("RPCs successfully completed")
 
         # If the RPCs have successfully completed, now await all remaining outstanding tasks.
@@ -115,19 +119,23 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
                         raise exception
 
                 log.debug("All outstanding tasks completed.")
+        elif RPC_MANAGER.outputs:
+            # Not all tasks are to be awaited, but the outputs are: their callbacks may schedule further RPCs.
+            log.debug(f"Waiting for {len(RPC_MANAGER.outputs)} outputs to resolve")
+            await asyncio.wait(RPC_MANAGER.outputs, return_when="FIRST_EXCEPTION")
 
         # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
         # Break if no RPCs remain. Tasks started in the meantime may yet schedule some.
-        if len(RPC_MANAGER.rpcs) == 0 and not (
-            await_all_outstanding_tasks and _get_running_tasks()
-        ):
-            if await_all_outstanding_tasks:
-                # An output that failed while something else was waited for must not go unnoticed.
-                # What has completed just now will only call back in the loop's next iteration.
-                await asyncio.sleep(0)
-                if RPC_MANAGER.output_exception is not None:
-                    raise RPC_MANAGER.output_exception
-            break
+        outstanding = (
+            _get_running_tasks()
+            if await_all_outstanding_tasks
+            else RPC_MANAGER.outputs
+        )
+        if len(RPC_MANAGER.rpcs) == 0 and len(outstanding) == 0:
+            # What has completed just now will only call back in the loop's next iteration.
+            await asyncio.sleep(0)
+            if RPC_MANAGER.output_exception is None:
+                break
 
 
 async def run_in_stack(func: Callable):
-- 
2.43.0


From c68e2365944bb6c71f488cea4e734116a47b6d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 64/65] fix: sending an output leaves its dependencies as they
 are

---
 sdk/python/lib/pulumi/runtime/rpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index b59b091..02bfd13 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -384,7 +384,7 @@ async def serialize_property(
 
     if known_types.is_output(value):
         output = cast("Output", value)
-        value_resources: Set["Resource"] = await output.resources()
+        value_resources: Set["Resource"] = set(await output.resources())
         deps.extend(value_resources)
 
         # When serializing an Output, we will either serialize it as its resolved value or the
-- 
2.43.0


From 170ce6907e2ff3e903c5c024b13a96d6d6560814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 65/65] fix: keep the id of a read resource secret while it is
 unknown

---
 sdk/python/lib/pulumi/runtime/resource.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index d81d82c..d90b21a 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -426,12 +426,13 @@ def read_resource(
             # because a "read" resource does not actually have any dependencies at all in the cloud
             # provider sense, because a read resource already exists. We do not need to track this
             # dependency.
+            given_id = Output.from_input(opts.id)
             serialized_id = await fail_if_cancelled(
-                rpc.serialize_property(opts.id, [])
+                rpc.serialize_property(given_id, [])
             )
 
             # The engine takes the ID as a plain string, whether it is a secret or not.
-            is_id_secret = rpc.is_rpc_secret(serialized_id)
+            is_id_secret = await given_id.is_secret()
             resolved_id = rpc.unwrap_rpc_secret(serialized_id)
             log.debug(f"read prepared: ty={ty}, name={name}, id={opts.id}")
 
-- 
2.43.0

