From 15d3c9a221f023e848a0f51a48a3974cd76a595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 01/14] fix: AbstractCache.validate_key() raised ValueError
 instead of warning

'{0:!r}' is an invalid format specification, so a key with a control
character raised ValueError: only a warning is intended.
---
 cache_dependencies/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 545c34a..ffba1b2 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -318,7 +318,7 @@ class AbstractCache(interfaces.ICache):
             if ord(char) < 33 or ord(char) == 127:
                 warnings.warn(
                     'Cache key contains characters that will cause ' +
-                    'errors if used with memcached: {0:!r}'.format(key)
+                    'errors if used with memcached: {0!r}'.format(key)
                 )
 
     def incr_version(self, key, delta=1, version=None):
-- 
2.43.0


From d222b5eb1a330906af6fd0317193378221739dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 02/14] fix: CacheWrapper.get_many() lost the keys of a
 one-shot iterator

The keys were iterated twice, so a generator was exhausted by the first
loop and nothing was read from the cache.
---
 cache_dependencies/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index ffba1b2..c4ecf0b 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -82,6 +82,7 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
+        keys = list(keys)
         if not abort and not self.ignore_descendants:
             current_cache_node = self.relation_manager.current()
             for key in keys:
-- 
2.43.0


From 1d4270090506b155e7d1797ba0364a01bf83b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 03/14] fix: CacheWrapper.begin() reused the node of an
 unfinished creating

The old node kept its old parent, so the fragment which encloses the key now
did not inherit the dependencies of the nested one.
---
 cache_dependencies/cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index c4ecf0b..1eebb0b 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -149,6 +149,8 @@ class CacheWrapper(object):  # Adapter
 
         :type key: str
         """
+        if self.relation_manager.get(key) is not self.relation_manager.current():
+            self.relation_manager.pop(key)  # Forgets the node left by an unfinished creating of this cache.
         self.relation_manager.current(key)
 
     def abort(self, key):
-- 
2.43.0


From 9cc4519d7f816e372ca53ea94b5cea041721df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 04/14] fix: CacheTagging.ignore_descendants had no effect

The assigned value shadowed the attribute of the wrapped cache instead of
reaching it.
---
 cache_dependencies/tagging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 511bb21..0a1ee2f 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -10,6 +10,14 @@ class CacheTagging(object):  # Backward compatibility
         """Constructor of cache instance."""
         self.cache = CacheWrapper(cache, relation_manager, transaction)
 
+    @property
+    def ignore_descendants(self):
+        return self.cache.ignore_descendants
+
+    @ignore_descendants.setter
+    def ignore_descendants(self, value):
+        self.cache.ignore_descendants = value
+
     def get_or_set_callback(self, key, callback, tags=(), timeout=None,
                             version=None, args=None, kwargs=None):
         """Returns cache value if exists
-- 
2.43.0


From 751bb8d9df0a78d6950ff083445c9cf45a24c05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 05/14] fix: "key in cache" raised TypeError

Special methods are not looked up by __getattr__().
---
 cache_dependencies/cache.py   | 3 +++
 cache_dependencies/tagging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 1eebb0b..3faa883 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -192,6 +192,9 @@ class CacheWrapper(object):  # Adapter
     def _is_packed_data(data):
         return isinstance(data, dict) and '__dependency' in data and '__value' in data
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Delegate for all native methods."""
         return getattr(self.cache, name)
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 0a1ee2f..4c14741 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -75,6 +75,9 @@ class CacheTagging(object):  # Backward compatibility
         self.transaction.flush()
         return self
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Proxy for all native methods."""
         return getattr(self.cache, name)
-- 
2.43.0


From 7914ffdb5acb5c4e386ecc00c00285fb8de73b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 06/14] fix: ThreadSafeTransactionManagerDecorator.flush()
 could be used from any thread

---
 cache_dependencies/transaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 1f326dd..00bd054 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -192,4 +192,5 @@ class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, Abs
         return self._delegate.finish()
 
     def flush(self):
+        self._validate_thread_sharing()
         return self._delegate.flush()
-- 
2.43.0


From fc83c6f6c0513d44802173b4c73bfb1b08db4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 07/14] fix: a copy of CompositeDependency shared its delegates
 with the original

Extending the copy altered the tags of the original dependency.
---
 cache_dependencies/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index dd5e3bf..506cc00 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -102,7 +102,7 @@ class CompositeDependency(interfaces.IDependency):
 
     def __copy__(self):
         c = copy.copy(super(CompositeDependency, self))
-        c.delegates = c.delegates[:]
+        c.delegates = [copy.copy(delegate) for delegate in c.delegates]
         return c
 
 
-- 
2.43.0


From 1e600b8b90a9f44a87d7716c759711c50ddcc5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 08/14] fix: cache_transaction_all() left the transaction open
 on exceptions

---
 django_cache_dependencies/decorators.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index e047ebc..1e8e8cd 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -48,9 +48,10 @@ def cache_transaction_all(f=None, cache=None):
 
     def wrapper(*args, **kwargs):
         cache.transaction.begin()
-        result = f(*args, **kwargs)
-        cache.transaction.flush()
-        return result
+        try:
+            return f(*args, **kwargs)
+        finally:
+            cache.transaction.flush()
 
     if f:
         return wrapper
@@ -58,9 +59,10 @@ def cache_transaction_all(f=None, cache=None):
     def wrapper_outer(f):
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
-            result = f(*args, **kwargs)
-            cache.transaction.flush()
-            return result
+            try:
+                return f(*args, **kwargs)
+            finally:
+                cache.transaction.flush()
 
     return wrapper_outer
 
-- 
2.43.0


From 2a0ae011178091470578d42811458d593e00d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 09/14] fix: cache_transaction_all(cache=...) replaced the
 decorated function by None

---
 django_cache_dependencies/decorators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index 1e8e8cd..cb9fb13 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -63,6 +63,7 @@ def cache_transaction_all(f=None, cache=None):
                 return f(*args, **kwargs)
             finally:
                 cache.transaction.flush()
+        return wrapper
 
     return wrapper_outer
 
-- 
2.43.0


From cd3df904b8c63a7eb7dcb0b97ab4ce286537114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 10/14] fix: UpdateCacheMiddleware raised AttributeError when
 used on its own

Only CacheMiddleware initialised the attribute "tags".
---
 django_cache_dependencies/middleware.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 958a316..bf21476 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -116,6 +116,7 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         self.key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
         self.cache_anonymous_only = getattr(settings, 'CACHE_MIDDLEWARE_ANONYMOUS_ONLY', False)
         self.cache_alias = settings.CACHE_MIDDLEWARE_ALIAS
+        self.tags = lambda request: ()  # patched
         self.get_response = get_response
 
     # patch start
-- 
2.43.0


From e81dede807d99bc2afcc7fedc034dd24804a6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 11/14] fix: AttributeError instead of TemplateSyntaxError for
 a bad timeout

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 2c1569c..3ca3454 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -81,7 +81,7 @@ class CacheNode(Node):
                     timeout = int(timeout)
                 except (ValueError, TypeError):
                     raise TemplateSyntaxError(
-                        '"cache" tag got a non-integer timeout value: {0}'.fomat(
+                        '"cache" tag got a non-integer timeout value: {0}'.format(
                             timeout
                         )
                     )
-- 
2.43.0


From 7ca9cb8fe40a47c61c886b52fb915c3739ad4d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:38 +0000
Subject: [PATCH 12/14] fix: an empty template fragment was never served from
 the cache

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 3ca3454..75e1716 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -66,7 +66,7 @@ class CacheNode(Node):
         cache_name = self.fragment_name.resolve(context)
         result = cache.get(cache_name)
 
-        if not result:
+        if result is None:
             timeout = None
             if self.timeout_var:
                 try:
-- 
2.43.0


From c8d0eb2347e8e2f69c6745db3024116fe39bff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:21 +0000
Subject: [PATCH 13/14] fix: a nested template fragment overwrote the tags and
 the prevention of the enclosing one

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 75e1716..7be49e0 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -96,6 +96,7 @@ class CacheNode(Node):
                 context['cache_tagging_prevent'] = False
 
             sub_context = copy.copy(context)
+            sub_context.push()  # The copy shares its dicts with the original.
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
-- 
2.43.0


From 7fa816e1acbf92a07f45712685d78fcf669abebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:09 +0000
Subject: [PATCH 14/14] fix: cache_tagging_prevent had no effect within {% for
 %} and {% with %}

---
 .../templatetags/cache_tagging_tags.py              | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 7be49e0..68117fe 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -23,6 +23,15 @@ register = Library()
 kwarg_re = re.compile(r"(?:(\w+)=)?(.+)")
 
 
+def set_prevent(context):
+    """Prevents caching of the innermost fragment, also from within a block with its own scope ({% for %}, {% with %})."""
+    for scope in reversed(context.dicts):
+        if 'cache_tagging_prevent' in scope:
+            scope['cache_tagging_prevent'] = True
+            return
+    context['cache_tagging_prevent'] = True
+
+
 class CacheAddTagsNode(Node):
     """Adds a new tags from body of {% cache_tagging %}."""
     def __init__(self, tags):
@@ -105,7 +114,7 @@ class CacheNode(Node):
 
             # Prevent caching of ancestor
             if sub_context['cache_tagging_prevent']:
-                context['cache_tagging_prevent'] = True
+                set_prevent(context)
             prevent = sub_context['cache_tagging_prevent']
 
             if 'request' in context:
@@ -205,7 +214,7 @@ def do_cache(parser, token):
 @register.simple_tag(takes_context=True)
 def cache_tagging_prevent(context):
     """Prevents caching from body of cachetags."""
-    context['cache_tagging_prevent'] = True
+    set_prevent(context)
     return ''
 
 register.tag('cache_tagging', do_cache)
-- 
2.43.0

