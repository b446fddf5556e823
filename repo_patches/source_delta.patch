From 43defe90616de23c76653e2ac5e95c6e6f17db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 01/56] fix: keep at, completed, from and until of each
 resource when parsing

---
 resync/sitemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index 0cf5271..a795ab8 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -339,7 +339,8 @@ class Sitemap(object):
             # have on element, look at attributes
             md = self.md_from_etree(md_elements[0], context=loc)
             # simple attributes that map directly to Resource object attributes
-            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type'):
+            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
+                        'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
                     setattr(resource, att, md[att])
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
-- 
2.43.0


From 2a61f40bf10f6ea9be0e4215f2477b5fb88948bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 02/56] fix: report bad datetimes in a resource entry as
 SitemapParseError

---
 resync/sitemap.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index a795ab8..330ba1c 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -329,7 +329,10 @@ class Sitemap(object):
             raise SitemapParseError(
                 "Multiple <lastmod> elements while parsing <url> in sitemap")
         elif (len(lastmod_elements) == 1):
-            resource.lastmod = lastmod_elements[0].text
+            try:
+                resource.lastmod = lastmod_elements[0].text
+            except ValueError as e:
+                raise SitemapParseError("Bad <lastmod> for %s (%s)" % (loc, str(e)))
         # proceed to look for other resource attributes in an rs:md element
         md_elements = etree.findall('{' + RS_NS + "}md")
         if (len(md_elements) > 1):
@@ -342,7 +345,11 @@ class Sitemap(object):
             for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
                         'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
-                    setattr(resource, att, md[att])
+                    try:
+                        setattr(resource, att, md[att])
+                    except ValueError as e:
+                        raise SitemapParseError("Bad %s attribute in <rs:md> for %s (%s)" %
+                                                (self._xml_att_name(att), loc, str(e)))
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
             # digest types. Parse and warn of errors ignored.
             if ('hash' in md):
-- 
2.43.0


From 79a89dea8f05158d78e033a4206cf8acecd9c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 03/56] fix: prune the hashes missing from the source list, not
 those present in it

---
 resync/client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8474cc6..0890362 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -791,12 +791,13 @@ class Client(object):
     def prune_hashes(self, hashes, list_type):
         """Prune any hashes not in source resource or change list."""
         discarded = []
-        for hash in hashes:
-            if (hash in self.hashes):
+        for hash in sorted(self.hashes):
+            if (hash not in hashes):
                 self.hashes.discard(hash)
                 discarded.append(hash)
-        self.logger.info("Not calculating %s hash(es) on destination as not present "
-                         "in source %s list" % (', '.join(sorted(discarded)), list_type))
+        if (len(discarded) > 0):
+            self.logger.info("Not calculating %s hash(es) on destination as not present "
+                             "in source %s list" % (', '.join(discarded), list_type))
 
     def log_status(self, in_sync=True, incremental=False, audit=False,
                    same=None, created=0, updated=0, deleted=0, to_delete=0):
-- 
2.43.0


From 6e29b055b5d5145d12d22fe514e1bbdfa2b11178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 04/56] fix: provide hashes() for every list so that
 incremental sync works with --hash

---
 resync/list_base.py     | 13 +++++++++++++
 resync/resource_list.py | 13 -------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/resync/list_base.py b/resync/list_base.py
index daac991..143464f 100644
--- a/resync/list_base.py
+++ b/resync/list_base.py
@@ -76,6 +76,19 @@ class ListBase(ResourceContainer):
             return(self.count)
         return(len(self.resources))
 
+    def hashes(self):
+        """Return set of hashes uses in this list."""
+        hashes = set()
+        if (self.resources is not None):
+            for resource in self:
+                if (resource.md5 is not None):
+                    hashes.add('md5')
+                if (resource.sha1 is not None):
+                    hashes.add('sha-1')
+                if (resource.sha256 is not None):
+                    hashes.add('sha-256')
+        return(hashes)
+
     # INPUT
 
     def read(self, uri=None):
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 41518c1..3ecb0ac 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -211,16 +211,3 @@ class ResourceList(ListBaseWithIndex):
             src_cur = next(src_iter, None)
         # have now gone through both lists
         return(same, updated, deleted, created)
-
-    def hashes(self):
-        """Return set of hashes uses in this resource_list."""
-        hashes = set()
-        if (self.resources is not None):
-            for resource in self:
-                if (resource.md5 is not None):
-                    hashes.add('md5')
-                if (resource.sha1 is not None):
-                    hashes.add('sha-1')
-                if (resource.sha256 is not None):
-                    hashes.add('sha-256')
-        return(hashes)
-- 
2.43.0


From 8914e10508e1a097fc0ad73ef98e2689937e337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 05/56] fix: accept --checksum without --hash

---
 resync/client_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 02a6ba1..700cb28 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -212,6 +212,8 @@ def process_shared_misc_options(args, include_remote=False):
     Parse options that the resync-sync, resync-build and resync-explorer scripts use.
     """
     if args.checksum:
+        if args.hash is None:
+            args.hash = []
         args.hash.append('md5')
     if include_remote:
         if args.access_token:
-- 
2.43.0


From 2f022250bb6f6e27d37c38450236b324f873b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 06/56] fix: match the URI and path of a mapping literally

---
 resync/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 76d3e07..a97e1be 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -178,7 +178,7 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(self.dst_path + "(/.*)?$", dst_file)
+        m = re.match(re.escape(self.dst_path) + r"(/.*)?\Z", dst_file, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
@@ -195,7 +195,7 @@ class Map:
         slashes. However, a match of just self.src_path withouth a trailing
         slash will return self.dst_path with a trailing slash.
         """
-        m = re.match(self.src_uri + "(/.*)?$", src_uri)
+        m = re.match(re.escape(self.src_uri) + r"(/.*)?\Z", src_uri, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
-- 
2.43.0


From 2fea5fdd43a5e0cdf3b66688849ced6c640c184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 07/56] fix: strip all trailing slashes from the URI and path
 of a mapping, as documented

---
 resync/mapper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index a97e1be..243be58 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -162,10 +162,7 @@ class Map:
 
     def strip_trailing_slashes(self, path):
         """Return input path minus any trailing slashes."""
-        m = re.match(r"(.*)/+$", path)
-        if (m is None):
-            return(path)
-        return(m.group(1))
+        return(path.rstrip('/'))
 
     def dst_to_src(self, dst_file):
         """Return the src URI from the dst filepath.
-- 
2.43.0


From 59e507a8c0a941ff64e8cf7a1ab138c1a611f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 08/56] fix: detect duplicate mappings written with a trailing
 slash

---
 resync/mapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 243be58..1136832 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -62,19 +62,20 @@ class Mapper():
                         "Bad mapping argument (%s), got %s" %
                         (mapping, str(entry)))
                 (src_uri, dst_path) = entry
+                new_map = Map(src_uri, dst_path)
                 # Check for dupes
                 for map in self.mappings:
-                    if (src_uri == map.src_uri):
+                    if (new_map.src_uri == map.src_uri):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "source URI %s (with destination path %s)" %
                             (src_uri, dst_path))
-                    if (dst_path == map.dst_path):
+                    if (new_map.dst_path == map.dst_path):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "destination path %s (with source URI %s)" %
                             (dst_path, src_uri))
-                self.mappings.append(Map(src_uri, dst_path))
+                self.mappings.append(new_map)
 
     def default_src_uri(self):
         """Default src_uri from mapping.
-- 
2.43.0


From 2fb91bb0cb0c93915b93b180e680c7927afcc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 09/56] fix: compare whole path components when looking for
 unsafe mappings

---
 resync/mapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 1136832..82e3f6b 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -210,10 +210,10 @@ class Map:
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
         if (scheme != ''):
             return(False)
-        s = os.path.normpath(self.src_uri)
-        d = os.path.normpath(self.dst_path)
-        lcp = os.path.commonprefix([s, d])
-        return(s == lcp or d == lcp)
+        # Compare whole path components, so that /a/b and /a/bc are distinct
+        s = os.path.join(os.path.abspath(self.src_uri), '')
+        d = os.path.join(os.path.abspath(self.dst_path), '')
+        return(s.startswith(d) or d.startswith(s))
 
     def __repr__(self):
         """Human readable string for one map."""
-- 
2.43.0


From 16d9b4e0dcedc942e9633dacc4fed649b0e93d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 10/56] fix: refuse to map source URIs with .. segments to
 paths outside the destination

---
 resync/mapper.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 82e3f6b..c515c66 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -187,7 +187,9 @@ class Map:
     def src_to_dst(self, src_uri):
         """Return the dst filepath from the src URI.
 
-        Returns None on failure, local destination path on success.
+        Returns None on failure, local destination path on success. It is a
+        failure if the path would be outside of self.dst_path because of ..
+        segments in src_uri.
 
         Relies upon self.dst_path and self.src_path not including trailing
         slashes. However, a match of just self.src_path withouth a trailing
@@ -199,6 +201,15 @@ class Map:
         rel_path = m.group(1)
         if rel_path is None:
             rel_path = '/'
+        # Must not lead to somewhere outside of dst_path
+        depth = 0
+        for segment in rel_path.split('/'):
+            if (segment == '..'):
+                depth -= 1
+            elif (segment not in ('', '.')):
+                depth += 1
+            if (depth < 0):
+                return(None)
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From 80a3790d7a85e363524b70af65ebe51f49102090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 11/56] fix: do not strip leading characters from the URIs
 tried when looking for a resource list

---
 resync/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 0890362..c2cf7b4 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -181,7 +181,6 @@ class Client(object):
         errors = []
         for uri in [urljoin(self.sitemap, '.well-known/resourcesync'),
                     urljoin(uri_host, '.well-known/resourcesync')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 rluri = self.find_resource_list_from_source_description(uri)
                 return(self.read_resource_list(rluri))
@@ -191,7 +190,6 @@ class Client(object):
         for uri in [urljoin(self.sitemap, 'resourcelist.xml'),
                     urljoin(self.sitemap, 'sitemap.xml'),
                     urljoin(uri_host, 'sitemap.xml')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 return(self.read_resource_list(uri))
             except ClientError as e:
-- 
2.43.0


From 17c42deca76d64aed89e9a21f76ef3866f1d05e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 12/56] fix: write one resource per sitemap when
 max_sitemap_entries is 1

---
 resync/list_base_with_index.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b8f74ef..d7812d2 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -377,10 +377,11 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        for r in resource_iter:
-            chunk.add(r)
-            if (len(chunk) >= self.max_sitemap_entries):
-                break
+        if (first is None or self.max_sitemap_entries > 1):
+            for r in resource_iter:
+                chunk.add(r)
+                if (len(chunk) >= self.max_sitemap_entries):
+                    break
         # Get next to see whether there are more resources
         try:
             nxt = next(resource_iter)
-- 
2.43.0


From 67095d98536b7afebbeb4f97979a0445a94da2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 13/56] fix: refuse a component sitemap that would start after
 the last entry

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index d7812d2..53c4a5c 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -259,7 +259,7 @@ class ListBaseWithIndex(ListBase):
                 (len(self), str(
                     self.max_sitemap_entries)))
         start = part_number * self.max_sitemap_entries
-        if (start > len(self)):
+        if (start >= len(self)):
             raise ListBaseIndexError(
                 "Request for component sitemap with part_number too high, would start at entry %d yet the list has only %d entries" %
                 (start, len(self)))
-- 
2.43.0


From 08b926c6474d70e1c8d3fd30d4a34d2db1a7d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 14/56] fix: recognize https: URIs in a local sitemapindex as
 remote

---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 53c4a5c..50575ae 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -414,7 +414,7 @@ class ListBaseWithIndex(ListBase):
         Test is to see whether have either an explicit file: URI or whether
         there is no scheme name.
         """
-        return(re.match(r'file:', uri) or not re.match(r'\w{3,4}:', uri))
+        return(re.match(r'file:', uri) or not re.match(r'\w+:', uri))
 
 
 class ListBaseIndexError(Exception):
-- 
2.43.0


From 5dff87e5093a76b0d61d72abfe711daf8d13592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 15/56] fix: give every iteration over a resource list or set a
 state of its own

---
 resync/capability_list.py | 15 ++++-----------
 resync/resource_list.py   |  9 +--------
 resync/resource_set.py    | 10 +---------
 3 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 9d27ba0..598e927 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -35,7 +35,7 @@ class CapabilitySet(ResourceSet):
         by using uri order for duplicates and adding any unknown ones
         at the end
         """
-        self._iter_next_list = []
+        ordered = []
         # look through all resources and build capability to uri index
         uris = {}
         for uri in self.keys():
@@ -47,21 +47,14 @@ class CapabilitySet(ResourceSet):
         for cap in self.order:
             if (cap in uris):
                 for uri in sorted(uris[cap]):
-                    self._iter_next_list.append(uri)
+                    ordered.append(uri)
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
         for cap in uris:
             for uri in sorted(uris[cap]):
-                self._iter_next_list.append(uri)
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+                ordered.append(uri)
+        return(iter([self[uri] for uri in ordered]))
 
 
 class CapabilityList(ListBase):
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 3ecb0ac..3a57006 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -35,14 +35,7 @@ class SortedIterMixin(object):
 
     def sorted_iter(self):
         """Iterator over all the resources in this dict by sorted key order."""
-        self._sorted_iter_next_list = sorted(self.keys(), reverse=True)
-        return iter(self._sorted_iter_next, None)
-
-    def _sorted_iter_next(self):
-        if (len(self._sorted_iter_next_list) > 0):
-            return self[self._sorted_iter_next_list.pop()]
-        else:
-            return None
+        return iter([self[uri] for uri in sorted(self.keys())])
 
 
 class ResourceListDict(dict, SortedIterMixin):
diff --git a/resync/resource_set.py b/resync/resource_set.py
index ccd77bd..25a7ab3 100644
--- a/resync/resource_set.py
+++ b/resync/resource_set.py
@@ -17,15 +17,7 @@ class ResourceSet(dict):
 
     def __iter__(self):
         """Iterator over all the resources in this ResourceSet."""
-        self._iter_next_list = sorted(self.keys())
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+        return(iter([self[uri] for uri in sorted(self.keys())]))
 
     def add(self, resource, replace=False):
         """Add just a single resource."""
-- 
2.43.0


From 6993e4a77dedb240a2e45fc8d194b924048b13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 16/56] fix: use a common directory as the path prefix of a
 dump

---
 resync/dump.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0405718..5863676 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -140,8 +140,10 @@ class Dump(object):
             if (path_prefix is None):
                 path_prefix = os.path.dirname(resource.path)
             else:
-                path_prefix = os.path.commonprefix(
-                    [path_prefix, os.path.dirname(resource.path)])
+                # Common directory, so compare whole path components
+                path_prefix = os.path.dirname(os.path.commonprefix(
+                    [os.path.join(path_prefix, ''),
+                     os.path.join(os.path.dirname(resource.path), '')]))
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
-- 
2.43.0


From 908103a1ecb51e7368cf492ca0db52a38345c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 17/56] fix: keep resources distinct from the manifest in a
 dump, and leave their paths unchanged

---
 resync/dump.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 5863676..73c6a57 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -3,6 +3,7 @@
 import logging
 import os.path
 from zipfile import ZipFile, ZIP_STORED, ZIP_DEFLATED
+from resync.resource import Resource
 from resync.resource_dump_manifest import ResourceDumpManifest
 
 
@@ -70,16 +71,11 @@ class Dump(object):
             compression=compression,
             allowZip64=True)
         # Write resources first
-        rdm = ResourceDumpManifest(resources=resources)
-        real_path = {}
-        for resource in resources:
-            archive_path = self.archive_path(resource.path)
-            real_path[archive_path] = resource.path
-            resource.path = archive_path
+        rdm = self.archive_manifest(resources)
         zf.writestr('manifest.xml', rdm.as_xml())
         # Add all files in the resources
-        for resource in resources:
-            zf.write(real_path[resource.path], arcname=resource.path)
+        for (resource, archived) in zip(resources, rdm):
+            zf.write(resource.path, arcname=archived.path)
         zf.close()
         zipsize = os.path.getsize(dumpfile)
         self.logger.info(
@@ -186,6 +182,22 @@ class Dump(object):
         if (manifest_files > 0):
             yield(manifest)
 
+    def archive_manifest(self, resources):
+        """Return manifest describing resources with their paths in the archive.
+
+        The resources themselves are not changed. Each has its own path in the
+        archive, different from that of the manifest.
+        """
+        archived = []
+        used = set(['manifest.xml'])
+        for resource in resources:
+            path = self.archive_path(resource.path)
+            while (path in used):
+                path = '_' + path
+            used.add(path)
+            archived.append(Resource(resource=resource, path=path))
+        return(ResourceDumpManifest(resources=archived))
+
     def archive_path(self, real_path):
         """Return the archive path for file with real_path.
 
-- 
2.43.0


From f26ea124df007d879fe2507a584d20429ef52213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 18/56] fix: give archive paths in the separate manifests of a
 dump

---
 resync/dump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index 73c6a57..18117cb 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -44,7 +44,7 @@ class Dump(object):
             dumpbase = "%s%05d" % (basename, n)
             dumpfile = "%s.%s" % (dumpbase, self.format)
             if (write_separate_manifests):
-                manifest.write(basename=dumpbase + '.xml')
+                self.archive_manifest(manifest.resources).write(basename=dumpbase + '.xml')
             if (self.format == 'zip'):
                 self.write_zip(manifest.resources, dumpfile)
             elif (self.format == 'warc'):
-- 
2.43.0


From c19074bbb8203362e3dc0aa78c67139fb8eae095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 19/56] fix: compare whole, resolved path components in strict
 authority checks

---
 resync/url_authority.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 7697e20..d5cce54 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -66,8 +66,11 @@ class UrlAuthority(object):
                 return(False)
             # Maybe should allow parallel for 3+ components, eg. a.example.org,
             # b.example.org
-        path = os.path.dirname(s.path)
-        if (self.strict and path != self.master_path
-                and not path.startswith(self.master_path)):
-            return(False)
+        if (self.strict):
+            # Compare whole path components, with any . and .. resolved
+            path = os.path.normpath(os.path.dirname(s.path))
+            master_path = os.path.normpath(self.master_path)
+            if (master_path not in ('.', path)
+                    and not path.startswith(os.path.join(master_path, ''))):
+                return(False)
         return(True)
-- 
2.43.0


From f5c6c6748ed5ecc372a4f4143e1b5e4d09a0345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 20/56] fix: check the authority of a change list given
 explicitly, and in strict mode if asked

---
 resync/client.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index c2cf7b4..b89a77a 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -396,13 +396,13 @@ class Client(object):
         if (not self.noauth):
             uauth_cs = UrlAuthority(change_list, self.strictauth)
             if (not change_list_uri):
-                uauth_sm = UrlAuthority(self.sitemap)
-                for resource in src_change_list:
-                    if (not uauth_cs.has_authority_over(resource.uri)
-                            and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
-                        raise ClientFatalError(
-                            "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                            (change_list, resource.uri))
+                uauth_sm = UrlAuthority(self.sitemap, self.strictauth)
+            for resource in src_change_list:
+                if (not uauth_cs.has_authority_over(resource.uri)
+                        and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
+                    raise ClientFatalError(
+                        "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
+                        (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
         num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
-- 
2.43.0


From a39ae2516687078b5b415012efb4bf5ffde15506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 21/56] fix: create no directories in a dry run

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index b89a77a..0ff3063 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -492,14 +492,14 @@ class Client(object):
 
         Returns the number of resources updated/created (0 or 1)
         """
-        path = os.path.dirname(filename)
-        distutils.dir_util.mkpath(path)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
+            path = os.path.dirname(filename)
+            distutils.dir_util.mkpath(path)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
-- 
2.43.0


From 0fc113e0c75f863aedc094709c9bb79d51402536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 22/56] fix: record no client state in a dry run

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 0ff3063..18fce62 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -314,7 +314,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and self.last_timestamp > 0):
+        if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -467,7 +467,7 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
-- 
2.43.0


From 903f714decc616b08f3492221823bf08e2c4dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 23/56] fix: do not take the timestamp for incremental sync
 from local files deleted

---
 resync/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 18fce62..923a234 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -311,8 +311,11 @@ class Client(object):
         for resource in deleted:
             uri = resource.uri
             filename = self.mapper.src_to_dst(uri)
+            # Record no timestamp as this one is from the local file, not the source
+            last_timestamp = self.last_timestamp
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
+            self.last_timestamp = last_timestamp
         # 6. Store last timestamp to allow incremental sync
         if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From 918922f18abfa3bff43dec8a0b9e854c3460823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 24/56] fix: delete the copy of a resource that a change list
 shows as created and then deleted

---
 resync/client.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 923a234..486712e 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -19,7 +19,7 @@ from .resource_list import ResourceList
 from .change_list import ChangeList
 from .capability_list import CapabilityList
 from .source_description import SourceDescription
-from .mapper import Mapper
+from .mapper import Mapper, MapperError
 from .sitemap import Sitemap
 from .dump import Dump
 from .resource import Resource
@@ -413,7 +413,18 @@ class Client(object):
             self.logger.info(
                 "Skipped %d changes before %s" %
                 (num_skipped, datetime_to_str(from_timestamp)))
+        last_changes = dict((resource.uri, resource) for resource in src_change_list)
         num_dupes = src_change_list.prune_dupes()
+        # Resources both created and then deleted are pruned completely, but we
+        # might have a copy from an earlier sync to be deleted
+        remaining = set(src_change_list.uris())
+        for uri in last_changes:
+            try:
+                if (uri not in remaining and os.path.isfile(self.mapper.src_to_dst(uri))):
+                    src_change_list.add(last_changes[uri])
+                    num_dupes -= 1
+            except MapperError:
+                pass  # no copy possible
         if (num_dupes > 0):
             self.logger.info("Removed %d prior changes" % (num_dupes))
         # Review and log status before
-- 
2.43.0


From 50398a4963b02fdcc0b5312884d74825c1f331f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 25/56] fix: read change lists and dumps that are split into
 several sitemaps

---
 resync/list_base_with_index.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 50575ae..9467996 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -16,6 +16,7 @@ from .hashes import Hashes
 from .list_base import ListBase
 from .mapper import Mapper, MapperError
 from .resource import Resource
+from .resource_container import ResourceContainer
 from .sitemap import Sitemap
 from .url_authority import UrlAuthority
 from .url_or_file_open import url_or_file_open
@@ -107,7 +108,11 @@ class ListBaseWithIndex(ListBase):
             pass
         self.logger.info("Read sitemap/sitemapindex from %s" % (uri))
         s = self.new_sitemap()
-        s.parse_xml(fh=fh, resources=self, capability=self.capability_name)
+        # Read into a separate container because the entries of a sitemapindex
+        # are component sitemaps and not resources of this list
+        document = ResourceContainer(md=self.md, ln=self.ln)
+        s.parse_xml(fh=fh, resources=document, capability=self.capability_name)
+        self.md = document.md
         # what did we read? sitemap or sitemapindex?
         if (s.parsed_index):
             # sitemapindex
@@ -118,22 +123,25 @@ class ListBaseWithIndex(ListBase):
             self.logger.info(
                 "Parsed as sitemapindex, %d sitemaps" %
                 (len(
-                    self.resources)))
+                    document.resources)))
             sitemapindex_is_file = self.is_file_uri(uri)
             if (index_only):
                 # don't read the component sitemaps
                 self.sitemapindex = True
+                add_entry = getattr(self.resources, 'add', None) or self.resources.append
+                for r in document:
+                    add_entry(r)
                 return
-            # now loop over all entries to read each sitemap and add to
-            # resources
-            sitemaps = self.resources
-            self.resources = self.resources_class()
-            self.logger.info("Now reading %d sitemaps" % len(sitemaps.uris()))
-            for sitemap_uri in sorted(sitemaps.uris()):
+            # now loop over all entries to read each sitemap, in the order
+            # listed, and add to resources
+            self.logger.info("Now reading %d sitemaps" % len(document.resources))
+            for r in document:
                 self.read_component_sitemap(
-                    uri, sitemap_uri, s, sitemapindex_is_file)
+                    uri, r.uri, s, sitemapindex_is_file)
         else:
             # sitemap
+            for r in document:
+                self.add(r)
             self.logger.info("Parsed as sitemap, %d resources" %
                              (len(self.resources)))
 
@@ -179,7 +187,7 @@ class ListBaseWithIndex(ListBase):
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
-            self.resources.add(r)
+            self.add(r)
         # FIXME - if rel="up" check it goes to correct place
         # FIXME - check capability
 
-- 
2.43.0


From b970636771761a012af2014cf2436cfe1a981a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 26/56] fix: honour allow_multifile when creating dumps and
 their manifests

---
 resync/change_dump.py            | 3 ++-
 resync/change_dump_manifest.py   | 3 ++-
 resync/change_list.py            | 5 +++--
 resync/resource_dump.py          | 3 ++-
 resync/resource_dump_manifest.py | 3 ++-
 5 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/resync/change_dump.py b/resync/change_dump.py
index a97a7ac..3f4d132 100644
--- a/resync/change_dump.py
+++ b/resync/change_dump.py
@@ -30,6 +30,7 @@ class ChangeDump(ResourceList):
         subclassing ResourceList.
         """
         super(ChangeDump, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'changedump'
diff --git a/resync/change_dump_manifest.py b/resync/change_dump_manifest.py
index cb2fa22..e510a3a 100644
--- a/resync/change_dump_manifest.py
+++ b/resync/change_dump_manifest.py
@@ -31,6 +31,7 @@ class ChangeDumpManifest(ChangeList):
         subclassing ChangeList.
         """
         super(ChangeDumpManifest, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'changedump-manifest'
diff --git a/resync/change_list.py b/resync/change_list.py
index 04cb6a1..4cad098 100644
--- a/resync/change_list.py
+++ b/resync/change_list.py
@@ -27,11 +27,12 @@ class ChangeList(ListBaseWithIndex):
 
     def __init__(self, resources=None, md=None, ln=None, uri=None,
                  mapper=None, spec_version='1.1', add_lastmod=False,
-                 resources_class=list):
+                 resources_class=list, allow_multifile=None):
         """Initialize ChangeList."""
         super(ChangeList, self).__init__(
             resources=resources, md=md, ln=ln, uri=uri,
-            capability_name='changelist', mapper=mapper,
+            capability_name='changelist', allow_multifile=allow_multifile,
+            mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod,
             resources_class=resources_class)
 
diff --git a/resync/resource_dump.py b/resync/resource_dump.py
index a8541b1..6ade281 100644
--- a/resync/resource_dump.py
+++ b/resync/resource_dump.py
@@ -28,7 +28,8 @@ class ResourceDump(ResourceList):
                  spec_version='1.1', add_lastmod=False):
         """Initialize ResourceDump."""
         super(ResourceDump, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'resourcedump'
 
diff --git a/resync/resource_dump_manifest.py b/resync/resource_dump_manifest.py
index 71790d7..2e93b75 100644
--- a/resync/resource_dump_manifest.py
+++ b/resync/resource_dump_manifest.py
@@ -25,6 +25,7 @@ class ResourceDumpManifest(ResourceList):
                  spec_version='1.1', add_lastmod=False):
         """Initialize ResourceDumpManifest."""
         super(ResourceDumpManifest, self).__init__(
-            resources=resources, md=md, ln=ln, uri=uri, mapper=mapper,
+            resources=resources, md=md, ln=ln, uri=uri,
+            allow_multifile=allow_multifile, mapper=mapper,
             spec_version=spec_version, add_lastmod=add_lastmod)
         self.capability_name = 'resourcedump-manifest'
-- 
2.43.0


From 37019690a02391d39df534dd86e80b4fe802e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 27/56] fix: treat identical timestamps as equal in
 Resource.equal with the default delta

---
 resync/resource.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/resource.py b/resync/resource.py
index 48c224b..3484fda 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -455,10 +455,12 @@ class Resource(object):
         if self.uri != other.uri:
             return False
         if (self.timestamp is not None or other.timestamp is not None):
-            # not equal if only one timestamp specified
+            # not equal if only one timestamp specified, identical
+            # timestamps are always equal (even with delta zero)
             if (self.timestamp is None
                     or other.timestamp is None
-                    or abs(self.timestamp - other.timestamp) >= delta):
+                    or (self.timestamp != other.timestamp
+                        and abs(self.timestamp - other.timestamp) >= delta)):
                 return False
         if ((self.md5 is not None and other.md5 is not None)
                 and self.md5 != other.md5):
-- 
2.43.0


From 4ac683651d9f2e5691e978d89c23451b1e549dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 28/56] fix: show the status and headers of remote resources in
 the explorer

---
 resync/explorer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3e3a3bc..0a424eb 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -278,8 +278,8 @@ class Explorer(Client):
         if (re.match(r'^\w+:', uri)):
             # Looks like a URI
             with url_or_file_open(uri, method='HEAD') as response:
-                status_code = response.code()
-                headers = response.headers()
+                status_code = str(response.getcode())
+                headers = response.info()
         else:
             # Mock up response if we have a local file
             (status_code, headers) = self.head_on_file(uri)
@@ -291,7 +291,7 @@ class Explorer(Client):
                 if header in headers:
                     check_str = ''
                     if (check_headers is not None and header in check_headers):
-                        if (headers[header] == check_headers[header]):
+                        if (str(headers[header]) == str(check_headers[header])):
                             check_str = ' MATCHES EXPECTED VALUE'
                         else:
                             check_str = ' EXPECTED %s' % (
-- 
2.43.0


From 95b32e912bbc2da46084b24b83dd598dd906ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 29/56] fix: map the component sitemaps of a local change list
 index in incremental sync

---
 resync/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 486712e..03d052d 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -368,7 +368,8 @@ class Client(object):
         # 3. Read change list from source
         try:
             self.logger.info("Reading change list %s" % (change_list))
-            src_change_list = ChangeList()
+            src_change_list = ChangeList(allow_multifile=self.allow_multifile,
+                                         mapper=self.mapper)
             src_change_list.read(uri=change_list)
             self.logger.debug("Finished reading change list")
         except Exception as e:
-- 
2.43.0


From 11ceafe6b85a335e0e95c8bce060d7854f7242e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 30/56] fix: open local files with %, ? or # in their path

---
 resync/url_or_file_open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index 4981fa4..923f7b6 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -2,7 +2,7 @@
 
 import re
 import time
-from urllib.request import Request, urlopen
+from urllib.request import Request, pathname2url, urlopen
 
 from . import __version__
 
@@ -31,7 +31,7 @@ def url_or_file_open(uri, method=None, timeout=None):
     no timeout is specified then the global default will be used.
     """
     if (not re.match(r'''\w+:''', uri)):
-        uri = 'file:' + uri
+        uri = 'file:' + pathname2url(uri)  # a path, %, ? and # are not special
     headers = {'User-Agent': 'resync/' + __version__}
     # Do we need to send an Authorization header?
     # FIXME - This token will be added blindy to all requests. This is insecure
-- 
2.43.0


From d4a9966757f8cf29cb1b79a6563ec5f8d2645e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 31/56] fix: report changes applied by an incremental sync as
 such, not as no changes

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 03d052d..e643ca2 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -479,7 +479,7 @@ class Client(object):
             else:
                 raise ClientError("Unknown change type %s" % (resource.change))
         # 7. Report status and planned actions
-        self.log_status(incremental=True, created=num_created, updated=num_updated,
+        self.log_status(in_sync=False, incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
         if (not self.dryrun and self.last_timestamp > 0):
-- 
2.43.0


From 04c6f3742f90c3722249d6e41175b769ba47c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 32/56] fix: do not print a message about dumps after a change
 list written to stdout

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index e643ca2..3e732c8 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -762,7 +762,7 @@ class Client(object):
 
     def write_dump_if_requested(self, resource_list, dump):
         """Write a dump to the file dump."""
-        if (dump is None):
+        if (not dump):
             return
         print("OOPS - FIXME - Wrinting dump to %s not yet implemented" % (dump))
         return(1)
-- 
2.43.0


From a204200e458ae66f5d1801a3803b5499aa662dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 33/56] fix: honour --multifile for the change list written and
 the reference lists read

---
 resync/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 3e732c8..c2a2c57 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -724,6 +724,7 @@ class Client(object):
             cl.add_changed_resources(deleted, change='deleted')
             cl.add_changed_resources(created, change='created')
         # 4. Write out change list
+        cl.allow_multifile = self.allow_multifile
         cl.mapper = self.mapper
         cl.pretty_xml = self.pretty_xml
         if (self.max_sitemap_entries is not None):
@@ -777,8 +778,9 @@ class Client(object):
         self.logger.info(
             "Reading %s resource list from %s ..." %
             (name, ref_sitemap))
+        rl.allow_multifile = self.allow_multifile
         rl.mapper = self.mapper
-        rl.read(uri=ref_sitemap, index_only=(not self.allow_multifile))
+        rl.read(uri=ref_sitemap)
         num_entries = len(rl.resources)
         self.logger.info(
             "Read %s resource list with %d entries in %d sitemaps" %
-- 
2.43.0


From 3f86c5557bcc462eeaa2a0aee4ce2fcf51667380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 34/56] fix: know the index of source descriptions in the
 explorer

---
 resync/explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 0a424eb..11ce0ec 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -204,7 +204,7 @@ class Explorer(Client):
             (capability, num_entries))
         if (expected is not None and capability not in expected):
             print("WARNING - expected a %s document" % (','.join(expected)))
-        if (capability not in ['description', 'descriptionoindex', 'capabilitylist',
+        if (capability not in ['description', 'descriptionindex', 'capabilitylist',
                                'resourcelist', 'resourcelistindex', 'changelist', 'changelistindex',
                                'resourcedump', 'resourcedumpindex', 'changedump', 'changedumpindex',
                                'resourcelist-archive', 'resourcedump-archive',
-- 
2.43.0


From d2801eb502c0cd09c687b52b88ce2da08173ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 35/56] fix: read the documents that up and index links lead to
 in the explorer

---
 resync/explorer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 11ce0ec..1502e70 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -157,7 +157,10 @@ class Explorer(Client):
         #
         checks = {}
         r = options[inp]
-        if (r.capability is None):
+        if (inp in ('u', 'i')):
+            # Related ResourceSync document which may be of any type
+            caps = None
+        elif (r.capability is None):
             if (capability in ['resourcelist', 'changelist',
                                'resourcedump', 'changedump']):
                 caps = 'resource'
-- 
2.43.0


From db7b3ea64aa3df0633d9f0d7bb67173cee9e9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 36/56] fix: expect a source description at the well-known URI
 in the explorer

---
 resync/explorer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resync/explorer.py b/resync/explorer.py
index 1502e70..4e49c86 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -81,12 +81,14 @@ class Explorer(Client):
                     starts.append(
                         XResource(
                             well_known, [
+                                'description', 'descriptionindex',
                                 'capabilitylist', 'capabilitylistindex']))
                 else:
                     starts.append(XResource(uri))
                     starts.append(
                         XResource(
                             well_known, [
+                                'description', 'descriptionindex',
                                 'capabilitylist', 'capabilitylistindex']))
                 print("Looking for discovery information based on mappings")
         else:
-- 
2.43.0


From 581f6a7a146a7f56d624da6fe18090115963faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 37/56] fix: a file: URI is a local source when looking for
 unsafe mappings

With file:///data=/data a synchronization opened each changed file for
writing before reading it, emptying it.
---
 resync/mapper.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index c515c66..98096ad 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -5,8 +5,10 @@ import os.path
 import re
 try:  # python3
     from urllib.parse import urlparse
+    from urllib.request import url2pathname
 except ImportError:  # pragma: no cover  python2
     from urlparse import urlparse  # pragma: no cover
+    from urllib import url2pathname  # pragma: no cover
 import logging
 
 
@@ -219,10 +221,14 @@ class Map:
         destination are the same, or if one is a component of the other path.
         """
         (scheme, netloc, path, params, query, frag) = urlparse(self.src_uri)
-        if (scheme != ''):
+        if (scheme == 'file'):
+            path = url2pathname(path) or '/'
+        elif (scheme != ''):
             return(False)
+        else:
+            path = self.src_uri
         # Compare whole path components, so that /a/b and /a/bc are distinct
-        s = os.path.join(os.path.abspath(self.src_uri), '')
+        s = os.path.join(os.path.abspath(path), '')
         d = os.path.join(os.path.abspath(self.dst_path), '')
         return(s.startswith(d) or d.startswith(s))
 
-- 
2.43.0


From 8ce390cec3f4f6f06dca2d2b1a7dca3dc1c81f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 38/56] fix: a directory removed since an earlier
 synchronization in the same process is made again

---
 resync/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index c2a2c57..8b4a9e1 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -7,7 +7,6 @@ except ImportError:  # pragma: no cover  python2
     from urlparse import urlsplit, urlunsplit, urljoin  # pragma: no cover
 import os.path
 import datetime
-import distutils.dir_util
 import re
 import time
 import logging
@@ -514,7 +513,7 @@ class Client(object):
                 (resource.uri, filename))
         else:
             path = os.path.dirname(filename)
-            distutils.dir_util.mkpath(path)
+            os.makedirs(path, exist_ok=True)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
-- 
2.43.0


From 5dc3ff69487d9c0c556e51f647e1c2ae56ddba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 39/56] fix: datetimes with other digits than 0-9 or a line
 break at the end are refused

---
 resync/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/w3c_datetime.py b/resync/w3c_datetime.py
index e5544d5..6ea02cf 100644
--- a/resync/w3c_datetime.py
+++ b/resync/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context='datetime'):
     if (s == ''):
         raise ValueError('Attempt to set empty %s' % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?\Z", s, re.ASCII)
     if (m is not None):
         if (m.group(1) is None):
             s += '-01-01'
@@ -86,7 +86,7 @@ def str_to_datetime(s, context='datetime'):
             s += '-01'
         s += 'T00:00:00Z'
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?\Z", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if (m is not None):
@@ -102,7 +102,7 @@ def str_to_datetime(s, context='datetime'):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))$", s)
+                 r"(\d\d):(\d\d))\Z", s, re.ASCII)
     if (m is None):
         raise ValueError("Bad datetime format (%s)" % s)
     str = m.group(1) + 'Z'
-- 
2.43.0


From 1d3fec0ff595d5d69a7cc79d89f7e6e28c9962d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 40/56] fix: writing a list in parts leaves its own index link
 as it is

---
 resync/list_base_with_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 9467996..d1776b3 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -380,7 +380,8 @@ class ListBaseWithIndex(ListBase):
         the iterator, providing indication of whether more is available.
         Use this as first when asking for the following chunk.
         """
-        chunk = ListBase(md=self.md.copy(), ln=list(self.ln))
+        # Copies of the links as chunks may have others, rel="index" in particular
+        chunk = ListBase(md=self.md.copy(), ln=[ln.copy() for ln in self.ln])
         chunk.capability_name = self.capability_name
         chunk.default_capability()
         if (first is not None):
-- 
2.43.0


From 13434f99f42a32d15ba12ef11fa6b2d2703c50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 41/56] fix: a copy of a resource has its own links

---
 resync/resource.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/resource.py b/resync/resource.py
index 3484fda..682f942 100644
--- a/resync/resource.py
+++ b/resync/resource.py
@@ -1,6 +1,7 @@
 """ResourceSync Resources - information about a web resource and changes."""
 
 import re
+from copy import deepcopy
 from posixpath import basename
 from urllib.parse import urlparse
 
@@ -98,6 +99,9 @@ class Resource(object):
                         'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']:
                 if hasattr(resource, att):
                     setattr(self, att, getattr(resource, att))
+            if (self.ln is not None):
+                # not shared, changing links of the copy leaves the original
+                self.ln = deepcopy(self.ln)
         # Any arguments will then override
         if (uri is not None):
             self.uri = uri
-- 
2.43.0


From 8e95e2c2cdaddd7b237b111f5ac5cb1b2a0127ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 42/56] fix: timeouts while connecting are raised as timeouts,
 and so retried

---
 resync/url_or_file_open.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/resync/url_or_file_open.py b/resync/url_or_file_open.py
index 923f7b6..d789dfe 100644
--- a/resync/url_or_file_open.py
+++ b/resync/url_or_file_open.py
@@ -1,7 +1,9 @@
 """Local version of urlopen that supports local files & web URLs, plus adds auth."""
 
 import re
+import socket
 import time
+from urllib.error import URLError
 from urllib.request import Request, pathname2url, urlopen
 
 from . import __version__
@@ -46,4 +48,10 @@ def url_or_file_open(uri, method=None, timeout=None):
         time.sleep(CONFIG['delay'])
     NUM_REQUESTS += 1
     maybe_timeout = {} if timeout is None else {'timeout': timeout}
-    return urlopen(Request(url=uri, headers=headers, method=method), **maybe_timeout)
+    try:
+        return urlopen(Request(url=uri, headers=headers, method=method), **maybe_timeout)
+    except URLError as e:
+        # urlopen wraps timeouts that happen while connecting
+        if isinstance(e.reason, socket.timeout):
+            raise e.reason from e
+        raise
-- 
2.43.0


From c748b7fad0bd7648d0b054c1811b7b67e6642891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 43/56] fix: incremental counts only the resources actually
 updated or created

---
 resync/client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8b4a9e1..9d9873f 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -466,12 +466,10 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             if (resource.change == 'updated'):
                 self.logger.info("updated: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'updated')
-                num_updated += 1
+                num_updated += self.update_resource(resource, filename, 'updated')
             elif (resource.change == 'created'):
                 self.logger.info("created: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'created')
-                num_created += 1
+                num_created += self.update_resource(resource, filename, 'created')
             elif (resource.change == 'deleted'):
                 num_deleted += self.delete_resource(
                     resource, filename, allow_deletion)
-- 
2.43.0


From f8453752063d5071e4d194612a3409b2491f4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 44/56] fix: a directory that cannot be made is a failure to
 get the resource, as a file that cannot be written

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 9d9873f..301e2b8 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -511,10 +511,10 @@ class Client(object):
                 (resource.uri, filename))
         else:
             path = os.path.dirname(filename)
-            os.makedirs(path, exist_ok=True)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
+                    os.makedirs(path, exist_ok=True)
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
-- 
2.43.0


From 0aae58a92c9a44f7796c170d72487abb4909ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 45/56] fix: strict authority for URLs ending in a dot segment

---
 resync/url_authority.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index d5cce54..59a2a2c 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -49,7 +49,7 @@ class UrlAuthority(object):
         m = urlparse(url)
         self.master_scheme = m.scheme
         self.master_netloc = m.netloc
-        self.master_path = os.path.dirname(m.path)
+        self.master_path = self._directory(m.path)
 
     def has_authority_over(self, url):
         """Return True of the current master has authority over url.
@@ -68,9 +68,15 @@ class UrlAuthority(object):
             # b.example.org
         if (self.strict):
             # Compare whole path components, with any . and .. resolved
-            path = os.path.normpath(os.path.dirname(s.path))
+            path = os.path.normpath(self._directory(s.path))
             master_path = os.path.normpath(self.master_path)
             if (master_path not in ('.', path)
                     and not path.startswith(os.path.join(master_path, ''))):
                 return(False)
         return(True)
+
+    def _directory(self, path):
+        # Directory part of path, where a final . or .. is a directory
+        if (os.path.basename(path) in ('.', '..')):
+            return(path)
+        return(os.path.dirname(path))
-- 
2.43.0


From 5e8cbbb2486d689c23afc0846196aab9ecaa0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 46/56] fix: files that cannot be read are skipped by a scan
 with hashes, as those that cannot be looked at

---
 resync/resource_list_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 32db1ad..25c3a73 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -174,6 +174,7 @@ class ResourceListBuilder():
         try:
             uri = self.mapper.dst_to_src(file)  # might throw MapperError
             file_stat = os.stat(file)
+            hashes = Hashes(self.set_hashes, file) if self.set_hashes else None
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
             return
@@ -181,8 +182,8 @@ class ResourceListBuilder():
         r = Resource(uri=uri, timestamp=timestamp)
         if self.set_path:  # add full local path
             r.path = file
-        if self.set_hashes:  # add any hashes requested
-            Hashes(self.set_hashes, file).set(r)
+        if hashes:  # add any hashes requested
+            hashes.set(r)
         if self.set_length:  # add length
             r.length = file_stat.st_size
         resource_list.add(r)
-- 
2.43.0


From 3e139e1ce0269a28491b5426813695812abf9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 47/56] fix: a scan lists regular files only, and does not wait
 for a named pipe

---
 resync/resource_list_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 25c3a73..f819ab7 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -3,6 +3,7 @@
 import os
 import os.path
 import re
+import stat
 import time
 import logging
 from defusedxml.ElementTree import parse
@@ -174,6 +175,9 @@ class ResourceListBuilder():
         try:
             uri = self.mapper.dst_to_src(file)  # might throw MapperError
             file_stat = os.stat(file)
+            if not stat.S_ISREG(file_stat.st_mode):
+                self.logger.warning("Ignoring '%s' (not a regular file)" % (file))
+                return
             hashes = Hashes(self.set_hashes, file) if self.set_hashes else None
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
-- 
2.43.0


From 09ca819d0deec6654201456ae99e0310df18b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 48/56] fix: incremental reports changes as applied only after
 applying them

---
 resync/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client.py b/resync/client.py
index 301e2b8..3852525 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -446,7 +446,7 @@ class Client(object):
         # either there are no changes or if there are only deletions and
         # we don't allow deletion
         in_sync = ((to_update + to_delete + to_create) == 0)
-        self.log_status(in_sync=in_sync, incremental=True, created=to_create,
+        self.log_status(in_sync=in_sync, incremental=True, audit=True, created=to_create,
                         updated=to_update, deleted=to_delete)
         if (in_sync or ((to_update + to_create) == 0 and not allow_deletion)):
             self.logger.debug("Completed incremental")
-- 
2.43.0


From 210c25e1792fffa9d7234b8c991ce4ea9d50c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 49/56] fix: documents are written in UTF-8 whatever the locale

---
 resync/list_base.py            | 2 +-
 resync/list_base_with_index.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/resync/list_base.py b/resync/list_base.py
index 143464f..f8ab025 100644
--- a/resync/list_base.py
+++ b/resync/list_base.py
@@ -153,7 +153,7 @@ class ListBase(ResourceContainer):
         Must be overridden to support multi-file lists.
         """
         self.default_capability()
-        fh = open(basename, 'w')
+        fh = open(basename, 'w', encoding='utf-8')
         s = self.new_sitemap()
         s.resources_as_xml(self, fh=fh, sitemapindex=self.sitemapindex)
         fh.close()
diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index d1776b3..646c7d5 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -330,7 +330,7 @@ class ListBaseWithIndex(ListBase):
                     raise ListBaseIndexError(
                         "Cannot map sitemap filename to URI (%s)" % str(e))
                 self.logger.info("Writing sitemap %s..." % (file))
-                f = open(file, 'w')
+                f = open(file, 'w', encoding='utf-8')
                 chunk.index = index_uri
                 chunk.md = index.md
                 s.resources_as_xml(chunk, fh=f)
@@ -343,19 +343,19 @@ class ListBaseWithIndex(ListBase):
                 # Get next chunk
                 (chunk, nxt) = self.get_resources_chunk(resources_iter, nxt)
             self.logger.info("Wrote %d sitemaps" % (len(index)))
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemapindex %s..." % (basename))
             s.resources_as_xml(index, sitemapindex=True, fh=f)
             f.close()
             self.logger.info("Wrote sitemapindex %s" % (basename))
         elif self.sitemapindex:
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemapindex %s..." % (basename))
             s.resources_as_xml(chunk, sitemapindex=True, fh=f)
             f.close()
             self.logger.info("Wrote sitemapindex %s" % (basename))
         else:
-            f = open(basename, 'w')
+            f = open(basename, 'w', encoding='utf-8')
             self.logger.info("Writing sitemap %s..." % (basename))
             s.resources_as_xml(chunk, fh=f)
             f.close()
-- 
2.43.0


From c709bf917b1b0c1a4d58e989f745aae15aa8a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 50/56] fix: the status file is read and written in UTF-8
 whatever the locale

---
 resync/client_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index ce30374..99d0da5 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -31,7 +31,7 @@ class ClientState(object):
         FIXME - should have some file lock to avoid race
         """
         parser = ConfigParser()
-        parser.read(self.status_file)
+        parser.read(self.status_file, encoding='utf-8')
         status_section = 'incremental'
         if (not parser.has_section(status_section)):
             parser.add_section(status_section)
@@ -44,7 +44,7 @@ class ClientState(object):
                 status_section,
                 self.config_site_to_name(site),
                 str(timestamp))
-        with open(self.status_file, 'w') as configfile:
+        with open(self.status_file, 'w', encoding='utf-8') as configfile:
             parser.write(configfile)
             configfile.close()
 
@@ -52,7 +52,7 @@ class ClientState(object):
         """Read client status file and return dict."""
         parser = ConfigParser()
         status_section = 'incremental'
-        parser.read(self.status_file)
+        parser.read(self.status_file, encoding='utf-8')
         timestamp = None
         try:
             timestamp = float(
-- 
2.43.0


From 4e7b5103dac058f8688dfc53d71f29fca592fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 51/56] fix: values of --link attributes and capability URIs
 may contain an equals sign

---
 resync/client_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 700cb28..fbb5599 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -123,7 +123,7 @@ def parse_link(link_str):
             raise ClientFatalError("Missing uri in " + help_str)
         # Remaining segments are attributes
         for term in segs:
-            (k, v) = term.split('=')
+            (k, v) = term.split('=', 1)
             if (k == '' or v == ''):
                 raise ClientFatalError(
                     "Bad attribute (%s) in " %
@@ -146,7 +146,7 @@ def parse_capabilities(caps_str):
     try:
         segs = caps_str.split(',')
         for term in segs:
-            (k, v) = term.split('=')
+            (k, v) = term.split('=', 1)
             capabilities[k] = v
     except ValueError as e:
         raise ClientFatalError(
-- 
2.43.0


From 05987f9abc1ea7c2e6353bbc25fa01d67ac9480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 52/56] fix: check_url_authority applies to sitemap indexes
 read from the web

---
 resync/list_base_with_index.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 646c7d5..f5b3d16 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -159,14 +159,14 @@ class ListBaseWithIndex(ListBase):
                 self.logger.info(
                     "Mapped %s to local file %s" %
                     (remote_uri, sitemap_uri))
-            else:
-                # The individual sitemaps should be at a URL (scheme/server/path)
-                # that the sitemapindex URL can speak authoritatively about
-                if (self.check_url_authority
-                        and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
-                    raise ListBaseIndexError(
-                        "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
-                        (sitemapindex_uri, sitemap_uri))
+        else:
+            # The individual sitemaps should be at a URL (scheme/server/path)
+            # that the sitemapindex URL can speak authoritatively about
+            if (self.check_url_authority
+                    and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
+                raise ListBaseIndexError(
+                    "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
+                    (sitemapindex_uri, sitemap_uri))
         try:
             fh = url_or_file_open(sitemap_uri)
             self.num_files += 1
-- 
2.43.0


From 97e2676faf16ce2eee731a89f9c1b77da6920ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 53/56] fix: the log file is written in UTF-8 whatever the
 locale

---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index fbb5599..cd4d207 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -60,7 +60,7 @@ def init_logging(to_file=False, logfile=None, default_logfile='/tmp/resync.log',
     if to_file:
         if (logfile is None):
             logfile = default_logfile
-        fh = logging.FileHandler(filename=logfile, mode='a')
+        fh = logging.FileHandler(filename=logfile, mode='a', encoding='utf-8')
         fh.setFormatter(formatter)
         fh.setLevel(logging.DEBUG if (eval_mode) else logging.INFO)
 
-- 
2.43.0


From 59bf254c490a87eb4389f11f2460a8e76c876353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:23 +0000
Subject: [PATCH 54/56] fix: stored times of sources are not lost when writing
 the status file is stopped

The status file was emptied before it was written again, so that all
state in it was lost if the client was killed, interrupted or out of
disk space just then.
---
 resync/client_state.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/client_state.py b/resync/client_state.py
index 99d0da5..d7dd208 100644
--- a/resync/client_state.py
+++ b/resync/client_state.py
@@ -44,9 +44,11 @@ class ClientState(object):
                 status_section,
                 self.config_site_to_name(site),
                 str(timestamp))
-        with open(self.status_file, 'w', encoding='utf-8') as configfile:
+        # Replace file as a whole so that state already there isn't lost if stopped
+        new_file = os.path.realpath(self.status_file) + '.new'
+        with open(new_file, 'w', encoding='utf-8') as configfile:
             parser.write(configfile)
-            configfile.close()
+        os.replace(new_file, os.path.realpath(self.status_file))
 
     def get_state(self, site):
         """Read client status file and return dict."""
-- 
2.43.0


From c7990efaf49e2f2d915295b2ef7dbefb3021e647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:58 +0000
Subject: [PATCH 55/56] fix: incremental sync deletes the copy of a resource
 created and then deleted in its turn, not last

---
 resync/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 3852525..cc77061 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -414,6 +414,7 @@ class Client(object):
                 "Skipped %d changes before %s" %
                 (num_skipped, datetime_to_str(from_timestamp)))
         last_changes = dict((resource.uri, resource) for resource in src_change_list)
+        position = dict((id(resource), n) for n, resource in enumerate(src_change_list))
         num_dupes = src_change_list.prune_dupes()
         # Resources both created and then deleted are pruned completely, but we
         # might have a copy from an earlier sync to be deleted
@@ -425,6 +426,7 @@ class Client(object):
                     num_dupes -= 1
             except MapperError:
                 pass  # no copy possible
+        src_change_list.resources.sort(key=lambda resource: position[id(resource)])
         if (num_dupes > 0):
             self.logger.info("Removed %d prior changes" % (num_dupes))
         # Review and log status before
-- 
2.43.0


From 598ff0a5b75d11ce474958481288a4bcd89400ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:58 +0000
Subject: [PATCH 56/56] fix: write dumps of files with times that the ZIP
 format cannot record

---
 resync/dump.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index 18117cb..1ceacf6 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -2,6 +2,7 @@
 
 import logging
 import os.path
+import sys
 from zipfile import ZipFile, ZIP_STORED, ZIP_DEFLATED
 from resync.resource import Resource
 from resync.resource_dump_manifest import ResourceDumpManifest
@@ -65,11 +66,17 @@ class Dump(object):
         or total size are performed, this is expected to have been done beforehand.
         """
         compression = (ZIP_DEFLATED if self.compress else ZIP_STORED)
+        options = {}
+        if (sys.version_info >= (3, 8)):
+            # Files may have times that cannot be recorded in ZIP format (before
+            # 1980 or after 2107), the nearest possible is then used
+            options['strict_timestamps'] = False
         zf = ZipFile(
             dumpfile,
             mode="w",
             compression=compression,
-            allowZip64=True)
+            allowZip64=True,
+            **options)
         # Write resources first
         rdm = self.archive_manifest(resources)
         zf.writestr('manifest.xml', rdm.as_xml())
-- 
2.43.0

