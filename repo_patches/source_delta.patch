From 4fbfbc3dd9fee638cec250469cbdd4c97ed302c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 001/106] fix: html parser: keep the content of an unterminated
 comment

---
 src/html_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 95db7c7..6fedc78 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -236,7 +236,6 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
                     if (cp[i] == '-' && cp[i+1] == '-' && cp[i+2] == '>')
                     {
                         i+= 2;
-                        event.openTagStart(cp, i);
                         break;
                     }
             }
@@ -244,8 +243,8 @@ void mp::HTMLParser::Rep::parse_str(HTMLParserEvent &event, const char *cp)
             {
                 for (i = 1; cp[i] && cp[i] != '>'; i++)
                     ;
-                event.openTagStart(cp, i);
             }
+            event.openTagStart(cp, i);
             if (m_verbose)
                 printf("------ dtd %.*s\n", i, cp);
             i += tagEnd(event, cp, i, cp + i);
-- 
2.43.0


From fb8dad38cc33d5a8ef7c56742db3138a3d6837b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 002/106] fix: html parser: do not drop a slash that does not
 end a tag

---
 src/html_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index 6fedc78..a069b19 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -190,7 +190,7 @@ int mp::HTMLParser::Rep::tagEnd(HTMLParserEvent &event,
             printf("------ text %.*s\n", i, cp);
         event.text(cp, i);
     }
-    if (cp[i] == '/')
+    if (cp[i] == '/' && cp[i + 1] == '>')
     {
         close_it = 1;
         i++;
-- 
2.43.0


From 67b9385a61b0489e6a3028fcbf49829cf527d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 003/106] fix: html parser: pass defined value length and quote
 for attributes without value

---
 src/html_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/html_parser.cpp b/src/html_parser.cpp
index a069b19..c620174 100644
--- a/src/html_parser.cpp
+++ b/src/html_parser.cpp
@@ -155,8 +155,8 @@ int mp::HTMLParser::Rep::tagAttrs(HTMLParserEvent &event,
         const char *attr_name = cp + i;
         int attr_len;
         const char *value;
-        int val_len;
-        int tr;
+        int val_len = 0;
+        int tr = 0;
         char x[2];
         int nor = skipAttribute(event, cp+i, &attr_len, &value, &val_len, &tr);
         if (!nor)
-- 
2.43.0


From 387f6ba0986bbf532c6ebd23cce9cf23b1e21cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:00 +0000
Subject: [PATCH 004/106] fix: url recipe: only strip a md- prefix from field
 names

---
 src/url_recipe.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/url_recipe.cpp b/src/url_recipe.cpp
index 3386d8f..9db10cf 100644
--- a/src/url_recipe.cpp
+++ b/src/url_recipe.cpp
@@ -110,8 +110,7 @@ std::string mp_xml::url_recipe_handle(xmlDoc *doc, std::string recipe)
         {
             std::string text;
             size_t offset = 0;
-            size_t md_pos = variable.find_first_of("md-");
-            if (md_pos == 0)
+            if (variable.compare(0, 3, "md-") == 0)
                 offset = 3;
             const xmlNode *ptr = ptr1;
             for (; ptr; ptr = ptr->next)
-- 
2.43.0


From 20f3111d2387a51e644ae37602557dae1c918043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 005/106] fix: router: keep a valid position when a package is
 sent to an unknown route

---
 src/router_flexml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index dad380d..a71e8f0 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -454,12 +454,14 @@ const mp::filter::Base *mp::RouterFleXML::Pos::move(const char *route)
 {
     if (route && *route)
     {
-        m_route_it = m_p->m_routes.find(route);
-        if (m_route_it == m_p->m_routes.end())
+        std::map<std::string, RouterFleXML::Route>::iterator it
+            = m_p->m_routes.find(route);
+        if (it == m_p->m_routes.end())
         {
             yaz_log(YLOG_FATAL, "no such route %s", route);
             return 0;
         }
+        m_route_it = it;
         m_filter_it = m_route_it->second.m_list.begin();
     }
     if (m_filter_it == m_route_it->second.m_list.end())
-- 
2.43.0


From d5a59745aafd108fc99c33d5cce9d580eee5eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 006/106] fix: router: refuse other elements among the routes
 instead of ignoring what follows

---
 src/router_flexml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index a71e8f0..756c04b 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -267,6 +267,10 @@ void mp::RouterFleXML::Rep::parse_xml_routes(xmlDocPtr doc,
             m_routes[id_value] = route;
         node = mp::xml::jump_to_next(node, XML_ELEMENT_NODE);
     }
+    if (node)
+        throw mp::XMLError("Unexpected element "
+                           + std::string((const char *) node->name)
+                           + " in element 'routes'");
 }
 
 void mp::RouterFleXML::Rep::check_routes_in_filters(const xmlNode *node)
-- 
2.43.0


From ffc67aec4ea99ee841febf4f935ca2c132e6956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:14 +0000
Subject: [PATCH 007/106] fix: session_map: look up sessions under the lock
 that guards the map

---
 include/metaproxy/session.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/metaproxy/session.hpp b/include/metaproxy/session.hpp
index 93951eb..a713321 100644
--- a/include/metaproxy/session.hpp
+++ b/include/metaproxy/session.hpp
@@ -108,6 +108,7 @@ namespace metaproxy_1 {
         };
 #endif
         bool exist(const metaproxy_1::Session &s) {
+            boost::mutex::scoped_lock lock(m_map_mutex);
             typename std::map<metaproxy_1::Session,SessionItem>::const_iterator it;
             it = m_map.find(s);
             return it == m_map.end() ? false : true;
-- 
2.43.0


From 463cb748f0b7e243b3b67313d4ba50e786c24734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 008/106] fix: virt_db: do not reuse the backend of another
 result set when replacing one

With targets that have no named result sets, a search replacing an existing
set took the first backend connection with the same databases, which may hold
a different result set.
---
 src/filter_virt_db.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_virt_db.cpp b/src/filter_virt_db.cpp
index de7f09a..7cfbc5d 100644
--- a/src/filter_virt_db.cpp
+++ b/src/filter_virt_db.cpp
@@ -293,7 +293,7 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
         override_set = true;
     }
     // pick up any existing database with named result sets ..
-    // or one if we are overriding it
+    // or the one of the result set if we are overriding it
     BackendPtr b; // null for now
     std::list<BackendPtr>::const_iterator map_it;
     map_it = m_backend_list.begin();
@@ -301,7 +301,8 @@ void yf::VirtualDB::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     {
         BackendPtr tmp = *map_it;
         if (mp::util::match(tmp->m_frontend_databases, databases) &&
-            (tmp->m_named_result_sets || override_set))
+            (tmp->m_named_result_sets ||
+             (override_set && sets_it->second.m_backend == tmp)))
         {
             b = *map_it;
             break;
-- 
2.43.0


From 39622b937505fac81a33844ffaacff7968b27709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:40 +0000
Subject: [PATCH 009/106] fix: session_shared: keep the encoded authentication
 of a session key valid

odr_getbuf returns the buffer of the encoder, which may move when the other
information is encoded after the authentication.
---
 src/filter_session_shared.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 8b2e304..c9a1fc3 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -269,8 +269,10 @@ yf::SessionShared::InitKey::InitKey(Z_InitRequest *req)
 
     Z_IdAuthentication *t = req->idAuthentication;
     z_IdAuthentication(m_odr, &t, 1, 0);
-    m_idAuthentication_buf =
-        odr_getbuf(m_odr, &m_idAuthentication_size, 0);
+    char *buf = odr_getbuf(m_odr, &m_idAuthentication_size, 0);
+    // copy, as encoding more may move the buffer of the encoder
+    m_idAuthentication_buf = (char*)odr_malloc(m_odr, m_idAuthentication_size);
+    memcpy(m_idAuthentication_buf, buf, m_idAuthentication_size);
 
     Z_OtherInformation *o = req->otherInfo;
     z_OtherInformation(m_odr, &o, 1, 0);
-- 
2.43.0


From 01c7e984e01f4249d3cd65a03001172ae66b2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:40 +0000
Subject: [PATCH 010/106] fix: session_shared: report a failed search as failed

The value for the result set status was stored as search status, where it
reads as success.
---
 src/filter_session_shared.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index c9a1fc3..a3d48ab 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -990,7 +990,9 @@ restart:
                 Z_APDU *f_apdu = odr.create_searchResponse(apdu_req,
                                                            0, 0);
                 Z_SearchResponse *f_resp = f_apdu->u.searchResponse;
-                *f_resp->searchStatus = Z_SearchResponse_none;
+                *f_resp->searchStatus = 0;
+                f_resp->resultSetStatus =
+                    odr_intdup(odr, Z_SearchResponse_none);
                 f_resp->records = z_records;
                 package.response() = f_apdu;
             }
-- 
2.43.0


From cdae689e18cf5f1b22f03ca9eb6712d9ac974cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:13 +0000
Subject: [PATCH 011/106] fix: session_shared: do not miss the request to stop

The expiry thread waited for a whole session ttl if it was told to stop before
it started to wait.
---
 src/filter_session_shared.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index a3d48ab..c68d5b5 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1386,7 +1386,8 @@ void yf::SessionShared::Rep::expire()
         xt.sec += m_session_ttl;
         {
             boost::mutex::scoped_lock lock(m_mutex);
-            m_cond_expire_ready.timed_wait(lock, xt);
+            if (!close_down)
+                m_cond_expire_ready.timed_wait(lock, xt);
             if (close_down)
                 break;
         }
-- 
2.43.0


From 28913c7546011ee3302d252bfdefd54d3ef5ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:50 +0000
Subject: [PATCH 012/106] fix: session_shared: forget the failed result set
 when restarting a search

If no new session could be opened, the set of the first attempt was taken for
a result and the missing session was used.
---
 src/filter_session_shared.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index c68d5b5..9ed3ed9 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -978,6 +978,7 @@ restart:
             bc->remove_backend(found_backend);
             session_restarted = true;
             found_backend.reset();
+            found_set.reset();
             goto restart;
 
         }
@@ -1015,6 +1016,7 @@ restart:
         bc->remove_backend(found_backend);
         session_restarted = true;
         found_backend.reset();
+        found_set.reset();
         goto restart;
     }
     found_backend->m_sets.push_back(found_set);
-- 
2.43.0


From 91a773737fc7618cfb0f669ce868967723bb735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:20 +0000
Subject: [PATCH 013/106] fix: session_shared: keep expiring sessions of
 clients that stay connected

When all sessions of a kind had expired, the list of them was dropped even if
clients still used it; sessions opened for those clients later never expired.
---
 src/filter_session_shared.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 9ed3ed9..7dbbac6 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -1363,7 +1363,8 @@ void yf::SessionShared::Rep::expire_classes()
     BackendClassMap::iterator b_it = m_backend_map.begin();
     while (b_it != m_backend_map.end())
     {
-        if (b_it->second->expire_instances())
+        // keep it if a client may open more sessions with it
+        if (b_it->second->expire_instances() && b_it->second.unique())
         {
             m_backend_map.erase(b_it);
             b_it = m_backend_map.begin();
-- 
2.43.0


From 5ab12f65c6f0870b6b5dd658f254aceee5b759fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:13 +0000
Subject: [PATCH 014/106] fix: session_shared: wake up waiting clients when a
 session is removed

A client waiting for a result set in use by another was never woken up if the
session with that result set ended.
---
 src/filter_session_shared.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 7dbbac6..91a6f04 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -325,6 +325,7 @@ void yf::SessionShared::BackendClass::remove_backend(BackendInstancePtr b)
             if (*it == b)
             {
                 it = m_backend_list.erase(it);
+                m_cond_set_ready.notify_all();
                 break;
             }
             it++;
-- 
2.43.0


From 51df19fd691f3f9d657e8725f9414f31d5027b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:10 +0000
Subject: [PATCH 015/106] fix: session_shared: guard what other threads look at
 by the lock

The lists of sessions and of result sets and the support for named result sets
were read by one thread while another changed them.
---
 src/filter_session_shared.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filter_session_shared.cpp b/src/filter_session_shared.cpp
index 91a6f04..f98e534 100644
--- a/src/filter_session_shared.cpp
+++ b/src/filter_session_shared.cpp
@@ -554,6 +554,7 @@ void yf::SessionShared::Rep::stat()
         {
             BackendClassPtr bc = it->second;
             no_classes++;
+            boost::mutex::scoped_lock lock_class(bc->m_mutex_backend_class);
             BackendInstanceList::iterator bit = bc->m_backend_list.begin();
             for (; bit != bc->m_backend_list.end(); bit++)
                 no_instances++;
@@ -919,6 +920,7 @@ restart:
             package.response() = f_apdu;
             return;
         }
+        boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
         if (bc->m_named_result_sets)
         {
             result_set_id = boost::io::str(
@@ -1020,6 +1022,7 @@ restart:
         found_set.reset();
         goto restart;
     }
+    boost::mutex::scoped_lock lock(bc->m_mutex_backend_class);
     found_backend->m_sets.push_back(found_set);
 }
 
@@ -1332,15 +1335,15 @@ bool yf::SessionShared::BackendClass::expire_instances()
     BackendInstanceList::iterator bit = m_backend_list.begin();
     while (bit != m_backend_list.end())
     {
-        time_t last_use = (*bit)->m_time_last_use;
-
         if ((*bit)->m_in_use)
         {
             yaz_log(YLOG_LOG, "session_shared id=%ld in_use",
                     (*bit)->m_session.id());
             bit++;
+            continue;
         }
-        else if (now < last_use || now - last_use > m_backend_expiry_ttl)
+        time_t last_use = (*bit)->m_time_last_use;
+        if (now < last_use || now - last_use > m_backend_expiry_ttl)
         {
             yaz_log(YLOG_LOG, "session_shared id=%ld erase",
                     (*bit)->m_session.id());
-- 
2.43.0


From f360b7452847cd8a2f282dece3c2bcd4f35a2eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:26 +0000
Subject: [PATCH 016/106] fix: piggyback bounds are inclusive, as Z39.50 says

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index de57265..0b32904 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -252,7 +252,7 @@ void mp_util::piggyback(Odr_int smallSetUpperBound,
 {
     // deal with piggyback
 
-    if (result_set_size < smallSetUpperBound)
+    if (result_set_size <= smallSetUpperBound)
     {
         // small set . Return all records in set
         number_to_present = result_set_size;
@@ -260,7 +260,7 @@ void mp_util::piggyback(Odr_int smallSetUpperBound,
             *element_set_name = smallSetElementSetNames;
 
     }
-    else if (result_set_size > largeSetLowerBound)
+    else if (result_set_size >= largeSetLowerBound)
     {
         // large set . Return no records
         number_to_present = 0;
-- 
2.43.0


From f44240eaf8e720c3455796d179b34665cc255bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:03 +0000
Subject: [PATCH 017/106] fix: multi: piggybacked records use the element set
 asked for

---
 src/filter_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 5c581e5..99527aa 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -730,6 +730,8 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
         Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentRequest);
         Z_PresentRequest *p_req = p_apdu->u.presentRequest;
         p_req->preferredRecordSyntax = req->preferredRecordSyntax;
+        p_req->recordComposition = mp::util::piggyback_to_RecordComposition(
+            odr, result_set_size, req);
         p_req->resultSetId = req->resultSetName;
         *p_req->resultSetStartPoint = 1;
         *p_req->numberOfRecordsRequested = number;
-- 
2.43.0


From 6e8da19e3a09b52e0c1fef7c6194a870de113dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:32 +0000
Subject: [PATCH 018/106] fix: multi: refuse present ranges outside the merged
 set

---
 src/filter_multi.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 99527aa..1c0385a 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -779,9 +779,28 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
         package.response() = apdu;
         return;
     }
+    Odr_int total = 0;
+    std::list<BackendSet>::const_iterator bsit;
+    bsit = it->second.m_backend_sets.begin();
+    for (; bsit != it->second.m_backend_sets.end(); bsit++)
+        total += bsit->m_count;
+
+    Odr_int start = *req->resultSetStartPoint;
+    Odr_int number = *req->numberOfRecordsRequested;
+    if (number < 0 ||
+        (number > 0 && (start < 1 || start > total
+                        || number > total - start + 1)))
+    {
+        mp::odr odr;
+        Z_APDU *apdu =
+            odr.create_presentResponse(
+                apdu_req,
+                YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE,
+                0);
+        package.response() = apdu;
+        return;
+    }
     std::list<Multi::FrontendSet::PresentJob> jobs;
-    int start = *req->resultSetStartPoint;
-    int number = *req->numberOfRecordsRequested;
 
     if (m_p->m_merge_type == round_robin)
         it->second.round_robin(start, number, jobs);
@@ -799,7 +818,6 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
 
     std::list<BackendPtr> present_backend_list;
 
-    std::list<BackendSet>::const_iterator bsit;
     bsit = it->second.m_backend_sets.begin();
     for (; bsit != it->second.m_backend_sets.end(); bsit++)
     {
-- 
2.43.0


From ed4ca54bb24c09aef5cd2f01bd9d84e6d23a6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:01 +0000
Subject: [PATCH 019/106] fix: multi: round robin position of later windows

---
 src/filter_multi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 1c0385a..b68c520 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -325,7 +325,7 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
         }
         if (no_left == 0) // if nothing greater than omin, bail out.
             break;
-        int skip = no_left * min;
+        int skip = no_left * (min - omin);
         if (p + skip > start)  // step gets us "into" present range?
         {
             // Yes. skip until start.. Rounding off is deliberate!
@@ -343,7 +343,7 @@ void yf::Multi::FrontendSet::round_robin(int start, int number,
 
         std::list<int>::iterator psit = pos.begin();
         for (psit = pos.begin(); psit != pos.end(); psit++)
-            *psit += min;
+            *psit += min - omin;
 
         omin = min; // update so we consider next class (with higher count)
     }
-- 
2.43.0


From 3c1eb6b49c9a434acaa0c5fcbb024fc013fe7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:32 +0000
Subject: [PATCH 020/106] fix: multi: scan without a preferred position, and
 with numbers out of range

---
 src/filter_multi.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index b68c520..91a04ce 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -1203,18 +1203,27 @@ void yf::Multi::Frontend::scan(mp::Package &package, Z_APDU *apdu_req)
         Z_APDU *f_apdu = odr.create_scanResponse(apdu_req, 0, 0);
         Z_ScanResponse *resp = f_apdu->u.scanResponse;
 
-        int number_returned = *req->numberOfTermsRequested;
-        int position_returned = *req->preferredPositionInResponse;
+        Odr_int number_wanted = *req->numberOfTermsRequested;
+        Odr_int position_wanted = 1;
+        if (req->preferredPositionInResponse)
+            position_wanted = *req->preferredPositionInResponse;
+
+        int lbefore = entries_before.size();
+        int lafter = entries_after.size();
+        int number_returned = lbefore + lafter;
+        if (number_wanted < number_returned)
+            number_returned = number_wanted < 0 ? 0 : number_wanted;
+        int position_returned = lbefore + 1;
+        if (position_wanted < position_returned)
+            position_returned = position_wanted < 0 ? 0 : position_wanted;
+        if (position_returned > number_returned + 1)
+            position_returned = number_returned + 1;
 
         resp->entries->num_entries = number_returned;
         resp->entries->entries = (Z_Entry**)
-            odr_malloc(odr, sizeof(Z_Entry*) * number_returned);
+            odr_malloc(odr, sizeof(Z_Entry*) * (number_returned + 1));
         int i;
 
-        int lbefore = entries_before.size();
-        if (lbefore < position_returned-1)
-            position_returned = lbefore+1;
-
         ScanTermInfoList::iterator it = entries_before.begin();
         for (i = 0; i<position_returned-1 && it != entries_before.end(); i++, it++)
         {
-- 
2.43.0


From 5994c4cef68567b0a5173f7e55357cc2754ce0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:10 +0000
Subject: [PATCH 021/106] fix: multi: records of targets that return few, or
 went away, when merging

---
 src/filter_multi.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 91a04ce..df04c54 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -939,14 +939,22 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
             PackagePtr p = jit->m_backend->m_package;
 
             Z_GDU *gdu = p->response().get();
+            if (!gdu || gdu->which != Z_GDU_Z3950
+                || gdu->u.z3950->which != Z_APDU_presentResponse)
+                continue;
             Z_APDU *b_apdu = gdu->u.z3950;
             int inside_pos = jit->m_pos - jit->m_start;
             Z_Records *records = b_apdu->u.presentResponse->records;
 
-            if (records && records->which == Z_Records_DBOSD
-                && inside_pos < 
-                records->u.databaseOrSurDiagnostics->num_records)
+            // target returned fewer than asked for: stop, so that
+            // the records returned are those at the positions asked for
+            if (!records)
+                break;
+            if (records->which == Z_Records_DBOSD)
             {
+                if (inside_pos >=
+                    records->u.databaseOrSurDiagnostics->num_records)
+                    break;
                 nprl->records[i] = (Z_NamePlusRecord*)
                     odr_malloc(odr, sizeof(Z_NamePlusRecord));
                 *nprl->records[i] = *records->
-- 
2.43.0


From 71be1e6c4b704e7e6326800a43289c6eb96e8799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:16 +0000
Subject: [PATCH 022/106] fix: multi: diagnostics that are not exactly one of
 default format

---
 src/filter_multi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index df04c54..69a43ff 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -701,7 +701,8 @@ void yf::Multi::Frontend::search(mp::Package &package, Z_APDU *apdu_req)
     {
         f_resp->records = (Z_Records *)
             odr_malloc(odr, sizeof(*f_resp->records));
-        if (z_diag->num_diagRecs > 1)
+        if (z_diag->num_diagRecs != 1
+            || z_diag->diagRecs[0]->which != Z_DiagRec_defaultFormat)
         {
             f_resp->records->which = Z_Records_multipleNSD;
             f_resp->records->u.multipleNonSurDiagnostics = z_diag;
@@ -900,7 +901,8 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
     {
         f_resp->records = (Z_Records *)
             odr_malloc(odr, sizeof(*f_resp->records));
-        if (z_diag->num_diagRecs > 1)
+        if (z_diag->num_diagRecs != 1
+            || z_diag->diagRecs[0]->which != Z_DiagRec_defaultFormat)
         {
             f_resp->records->which = Z_Records_multipleNSD;
             f_resp->records->u.multipleNonSurDiagnostics = z_diag;
-- 
2.43.0


From 870771c56b613c219e3b53838fa62291a6cce2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:59 +0000
Subject: [PATCH 023/106] fix: multi: present of no records from any position

---
 src/filter_multi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_multi.cpp b/src/filter_multi.cpp
index 69a43ff..7f6e58a 100644
--- a/src/filter_multi.cpp
+++ b/src/filter_multi.cpp
@@ -803,7 +803,9 @@ void yf::Multi::Frontend::present(mp::Package &package, Z_APDU *apdu_req)
     }
     std::list<Multi::FrontendSet::PresentJob> jobs;
 
-    if (m_p->m_merge_type == round_robin)
+    if (number == 0)
+        ; // no records, no jobs
+    else if (m_p->m_merge_type == round_robin)
         it->second.round_robin(start, number, jobs);
     else if (m_p->m_merge_type == serve_order)
         it->second.serve_order(start, number, jobs);
-- 
2.43.0


From 6b561bee3149ae3c8e7079c86c86146e8800165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 024/106] fix: load_balance: keep counting sessions of a target
 when one of them ends

---
 src/filter_load_balance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_load_balance.cpp b/src/filter_load_balance.cpp
index 05bc3d4..82c2e50 100644
--- a/src/filter_load_balance.cpp
+++ b/src/filter_load_balance.cpp
@@ -398,7 +398,7 @@ void yf::LoadBalance::Impl::remove_session(mp::Package &package)
     if (itarg->second.sessions > 0)
         itarg->second.sessions -= 1;
 
-    if (itarg->second.sessions == 0 || itarg->second.deads == 0)
+    if (itarg->second.sessions == 0)
         m_target_stat.erase(itarg);
 }
 
-- 
2.43.0


From 01cc325a2360672bc6775ebfedae4d8c5993cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 025/106] fix: auth_simple: check targets also when users are
 checked

---
 src/filter_auth_simple.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 2948e33..6d3fca8 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -289,6 +289,8 @@ void yf::AuthSimple::process_init(mp::Package &package) const
                 boost::mutex::scoped_lock lock(m_p->mutex);
                 m_p->userBySession[package.session()] = user;
             }
+            if (m_p->got_targetRegister)
+                return check_targets(package);
             return package.move();
         }
     }
-- 
2.43.0


From 1ecd02fcf0fda39626b11f5e591ea79ebbaef4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:03 +0000
Subject: [PATCH 026/106] fix: auth_simple: request outlives the memory of its
 targets

---
 src/filter_auth_simple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 6d3fca8..b1c54c9 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -422,6 +422,9 @@ void yf::AuthSimple::check_targets(mp::Package & package) const
                            "all databases");
     mp::odr odr;
     mp::util::set_vhost_otherinfo(otherInfo, odr, targets);
+    // what was set lives in odr: let the package have its own copy
+    yazpp_1::GDU init_gdu(package.request().get());
+    package.request() = init_gdu;
     package.move();
 }
 
-- 
2.43.0


From 6e44af2364b94b8be56b1067a51f7e6f611a81d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:55 +0000
Subject: [PATCH 027/106] fix: auth_simple: register lines of any length

---
 src/filter_auth_simple.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index b1c54c9..a3f6702 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -26,6 +26,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <metaproxy/util.hpp>
 #include "filter_auth_simple.hpp"
 #include <fstream>
+#include <string>
+#include <vector>
 #include <yaz/zgdu.h>
 #include <yaz/diagbib1.h>
 #include <yaz/tpath.h>
@@ -160,10 +162,11 @@ void mp::filter::AuthSimple::config_userRegister(std::string filename,
     if (!fp.is_open())
         die("Could not open " + filename);
 
-    while (!fp.eof())
+    std::string line;
+    while (std::getline(fp, line))
     {
-        char buf[1000];
-        fp.getline(buf, sizeof buf);
+        std::vector<char> line_buf(line.c_str(), line.c_str() + line.size() + 1);
+        char *buf = &line_buf[0];
         if (*buf == '\0' || *buf == '#')
             continue;
         char *passwdp = strchr(buf, ':');
@@ -204,9 +207,10 @@ void mp::filter::AuthSimple::config_targetRegister(std::string filename,
     if (!fp.is_open())
         die("Could not open " + filename);
 
-    while (!fp.eof()) {
-        char buf[1000];
-        fp.getline(buf, sizeof buf);
+    std::string line;
+    while (std::getline(fp, line)) {
+        std::vector<char> line_buf(line.c_str(), line.c_str() + line.size() + 1);
+        char *buf = &line_buf[0];
         if (*buf == '\0' || *buf == '#')
             continue;
         char *targetsp = strchr(buf, ':');
-- 
2.43.0


From 87220dc123beeabfc1399387b82a6455bee2fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:45 +0000
Subject: [PATCH 028/106] fix: auth_simple: access to shared maps from several
 threads

---
 src/filter_auth_simple.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index a3f6702..59358a4 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -54,6 +54,17 @@ namespace metaproxy_1 {
             std::map<std::string, std::list<std::string> > targetsByUser;
             std::map<mp::Session, std::string> userBySession;
             bool discardUnauthorisedTargets;
+            bool get_session_user(const mp::Session &session,
+                                  std::string &user)
+            {
+                boost::mutex::scoped_lock lock(mutex);
+                std::map<mp::Session, std::string>::const_iterator it
+                    = userBySession.find(session);
+                if (it == userBySession.end())
+                    return false;
+                user = it->second;
+                return true;
+            }
             Rep() { got_userRegister = false;
                     got_targetRegister = false;
                     discardUnauthorisedTargets = false; }
@@ -320,12 +331,12 @@ void yf::AuthSimple::process_search(mp::Package &package) const
     Z_SearchRequest *req =
         package.request().get()->u.z3950->u.searchRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    if (!m_p->get_session_user(package.session(), user)) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -352,12 +363,12 @@ void yf::AuthSimple::process_scan(mp::Package &package) const
     Z_ScanRequest *req =
         package.request().get()->u.z3950->u.scanRequest;
 
-    if (m_p->userBySession.count(package.session()) == 0) {
+    std::string user;
+    if (!m_p->get_session_user(package.session(), user)) {
         // It's a non-authenticated session, so just accept the operation
         return package.move();
     }
 
-    std::string user = m_p->userBySession[package.session()];
     yf::AuthSimple::Rep::PasswordAndDBs pdb = m_p->userRegister[user];
     for (int i = 0; i < req->num_databaseNames; i++) {
         if (!contains(pdb.dbs, req->databaseNames[i]) &&
@@ -397,7 +408,11 @@ void yf::AuthSimple::check_targets(mp::Package & package) const
 
     std::string password;
     std::string user = get_user(initReq, password);
-    std::list<std::string> authorisedTargets = m_p->targetsByUser[user];
+    std::list<std::string> authorisedTargets;
+    std::map<std::string, std::list<std::string> >::const_iterator u_it
+        = m_p->targetsByUser.find(user);
+    if (u_it != m_p->targetsByUser.end())
+        authorisedTargets = u_it->second;
 
     std::list<std::string> targets;
     Z_OtherInformation **otherInfo = &initReq->otherInfo;
-- 
2.43.0


From b12c2300ac555f3767e8cda0f9828dd4b394ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:32 +0000
Subject: [PATCH 029/106] fix: present_chunk: answer as one present would

The combined response lacked the reference id, status and next position;
a target returning no records made the filter loop for ever and one
returning more than asked overran the record list; large or negative
numbers were used as allocation sizes; the client's request was left
changed; the response of a closed session was lost.
---
 src/filter_present_chunk.cpp | 79 ++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/src/filter_present_chunk.cpp b/src/filter_present_chunk.cpp
index b67290c..c7fb7f4 100644
--- a/src/filter_present_chunk.cpp
+++ b/src/filter_present_chunk.cpp
@@ -17,6 +17,8 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 */
 
 #include "config.hpp"
+
+#include <vector>
 #include "filter_present_chunk.hpp"
 
 #include <time.h>
@@ -95,60 +97,59 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
     mp::odr odr;
     Z_PresentRequest *pr = apdu->u.presentRequest;
 
-    Odr_int total = *pr->numberOfRecordsRequested;
-    Odr_int start = *pr->resultSetStartPoint;
+    const Odr_int total = *pr->numberOfRecordsRequested;
+    const Odr_int start = *pr->resultSetStartPoint;
     Odr_int offset = 0;
-    Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
-        odr_malloc(odr, sizeof(*npl));
-    npl->num_records = total;
-    npl->records = (Z_NamePlusRecord **)
-        odr_malloc(odr, sizeof(*npl->records) * total);
+    std::vector<Z_NamePlusRecord *> records;
+    Z_APDU *a = odr.create_presentResponse(apdu, 0, 0);
+    Z_PresentResponse *pres = a->u.presentResponse;
+
     while (offset < total)
     {
         Odr_int left = total - offset;
+        if (left > chunk_number)
+            left = chunk_number;
 
         Package pp(package.session(), package.origin());
 
-        *pr->numberOfRecordsRequested =
-            left > chunk_number ? chunk_number : left;
-
-        *pr->resultSetStartPoint = start + offset;
-
         pp.copy_filter(package);
+        *pr->numberOfRecordsRequested = left;
+        *pr->resultSetStartPoint = start + offset;
         pp.request() = apdu;
+        *pr->numberOfRecordsRequested = total;
+        *pr->resultSetStartPoint = start;
 
         pp.move();
 
         if (pp.session().is_closed())
         {
+            package.response() = pp.response();
             package.session().close();
             return;
         }
         Z_GDU *gdu_res = pp.response().get();
         if (gdu_res && gdu_res->which == Z_GDU_Z3950 &&
-            gdu_res->u.z3950->which == Z_APDU_presentResponse)
+            gdu_res->u.z3950->which == Z_APDU_presentResponse &&
+            gdu_res->u.z3950->u.presentResponse->records &&
+            gdu_res->u.z3950->u.presentResponse->records->which ==
+            Z_Records_DBOSD)
         {
-            Z_PresentResponse *pres =
+            Z_PresentResponse *chunk_res =
                 gdu_res->u.z3950->u.presentResponse;
-            if (pres->records &&
-                pres->records->which == Z_Records_DBOSD)
-            {
-                Z_NamePlusRecordList *nprl =
-                    pres->records->u.databaseOrSurDiagnostics;
-                int i;
-                for (i = 0; i < nprl->num_records; i++)
-                {
-                    ODR o = odr;
-                    npl->records[offset+i] = yaz_clone_z_NamePlusRecord(
-                        nprl->records[i], o->mem);
-                }
-                offset += nprl->num_records;
-            }
-            else
+            Z_NamePlusRecordList *nprl =
+                chunk_res->records->u.databaseOrSurDiagnostics;
+            int i;
+            for (i = 0; i < nprl->num_records && i < left; i++)
             {
-                package.response() = pp.response();
-                return;
+                ODR o = odr;
+                records.push_back(
+                    yaz_clone_z_NamePlusRecord(nprl->records[i], o->mem));
             }
+            offset += i;
+            *pres->presentStatus = *chunk_res->presentStatus;
+            *pres->nextResultSetPosition = *chunk_res->nextResultSetPosition;
+            if (i == 0)
+                break; // no progress
         }
         else
         {
@@ -157,15 +158,19 @@ void yf::PresentChunk::Impl::chunk_it(mp::Package &package,
         }
     }
 
-    yaz_log(YLOG_LOG, "building response . %lld", offset);
+    Z_NamePlusRecordList *npl = (Z_NamePlusRecordList *)
+        odr_malloc(odr, sizeof(*npl));
+    npl->num_records = records.size();
+    npl->records = (Z_NamePlusRecord **)
+        odr_malloc(odr, sizeof(*npl->records) * (records.size() + 1));
+    size_t i;
+    for (i = 0; i < records.size(); i++)
+        npl->records[i] = records[i];
 
-    Z_APDU *a = zget_APDU(odr, Z_APDU_presentResponse);
-    Z_PresentResponse *pres = a->u.presentResponse;
     pres->records = (Z_Records *)
         odr_malloc(odr, sizeof(Z_Records));
     pres->records->which = Z_Records_DBOSD;
     pres->records->u.databaseOrSurDiagnostics = npl;
-    npl->num_records = offset;
     *pres->numberOfRecordsReturned = offset;
 
     package.response() = a;
@@ -177,7 +182,9 @@ void yf::PresentChunk::Impl::process(mp::Package &package)
     if (gdu && gdu->which == Z_GDU_Z3950)
     {
         Z_APDU *apdu = gdu->u.z3950;
-        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0)
+        if (apdu->which == Z_APDU_presentRequest && chunk_number > 0
+            && *apdu->u.presentRequest->numberOfRecordsRequested >
+            chunk_number)
             chunk_it(package, apdu);
         else
             package.move();
-- 
2.43.0


From 85cd1188c2e9bc666515b11016240c6f16e3328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:05 +0000
Subject: [PATCH 030/106] fix: http_file: serve nothing outside the document
 root

A prefix matched in the middle of a path component, and what followed was
appended to the document root as it was: with prefix /docs and root
/srv/docs the path /docs-private/x gave /srv/docs-private/x, and with root
'.' the path /docs./x gave ../x.
---
 src/filter_http_file.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/filter_http_file.cpp b/src/filter_http_file.cpp
index 500cdc1..b1d83a3 100644
--- a/src/filter_http_file.cpp
+++ b/src/filter_http_file.cpp
@@ -256,11 +256,21 @@ void yf::HttpFile::Rep::fetch_uri(mp::Session &session,
         AreaList::const_iterator it;
         for (it = m_area_list.begin(); it != m_area_list.end(); it++)
         {
-            std::string::size_type l = it->m_url_path_prefix.length();
-
-            if (path.compare(0, l, it->m_url_path_prefix) == 0)
+            const std::string &prefix = it->m_url_path_prefix;
+            std::string::size_type l = prefix.length();
+
+            if (path.compare(0, l, prefix) != 0)
+                continue;
+            // prefix must end where a path component ends
+            if (l == path.length() || path[l] == '/'
+                || l == 0 || prefix[l - 1] == '/')
             {
-                std::string fname = it->m_file_root + path.substr(l);
+                std::string fname = it->m_file_root;
+                // stay below the document root
+                if (l < path.length() && path[l] != '/'
+                    && fname[fname.length() - 1] != '/')
+                    fname += '/';
+                fname += path.substr(l);
                 package.log("http_file", YLOG_LOG, "%s", fname.c_str());
                 fetch_file(session, req, fname, package, it->m_raw,
                     it->m_passthru);
-- 
2.43.0


From 57f1528a91d28635aa68adbfc0d480eb45518785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:07 +0000
Subject: [PATCH 031/106] fix: PlainFile: lines of 255 characters or more,
 unreadable files

Reading them went on for ever, so that the configuration never finished.
---
 src/plainfile.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/plainfile.cpp b/src/plainfile.cpp
index 5b560c8..8f8736f 100644
--- a/src/plainfile.cpp
+++ b/src/plainfile.cpp
@@ -25,8 +25,6 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include <metaproxy/util.hpp>
 
-#define PLAINFILE_MAX_LINE 256
-
 namespace mp = metaproxy_1;
 
 namespace metaproxy_1 {
@@ -81,23 +79,23 @@ bool mp::PlainFile::getline(std::vector<std::string> &args)
     if (!m_p->fh)
         return false;  // no file at all.
 
-    char line_cstr[PLAINFILE_MAX_LINE];
+    std::string line;
     while (true)
     {
-        if (m_p->fh->eof())
+        if (!m_p->fh->good())
         {
             m_p->close();   // might as well close it now
             return false;
         }
 
         m_p->lineno++;
-        m_p->fh->getline(line_cstr, PLAINFILE_MAX_LINE-1);
-        char first = line_cstr[0];
+        std::getline(*m_p->fh, line);
+        char first = line.c_str()[0];
         if (first && !strchr("# \t", first))
             break;
         // comment or blank line.. read next.
     }
-    const char *cp = line_cstr;
+    const char *cp = line.c_str();
     while (true)
     {
         // skip whitespace
-- 
2.43.0


From fdd3041fad0f493331bc2c897b2a2a3f4ffc3ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:05 +0000
Subject: [PATCH 032/106] fix: http_rewrite: content without mime attribute

The attribute is optional, and the example in the documentation has none,
but matching the content type with it failed. Without it the content
section applies to any content type.
---
 src/filter_http_rewrite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index a4b865b..f109eea 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -331,7 +331,8 @@ void yf::HttpRewrite::Phase::rewrite_body(
         yaz_log(YLOG_LOG, "rewrite_body: content_type=%s type=%s",
                 content_type, cit->type.c_str());
         if (cit->type != "headers"
-            && regex_match(content_type, cit->content_re))
+            && (cit->content_re.empty() ||
+                regex_match(content_type, cit->content_re)))
             break;
     }
     if (cit == content_list.end()) {
-- 
2.43.0


From 6fcf9340e375dfa7efa5bd42335241014c83f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:05 +0000
Subject: [PATCH 033/106] fix: http_rewrite: assertions and other (? groups in
 patterns

The question mark of every group other than (?: and named groups was
dropped, so that (?=x) became a group matching =x.
---
 src/filter_http_rewrite.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index f109eea..b69eae6 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -665,15 +665,17 @@ void yf::HttpRewrite::Replace::parse_groups(std::string pattern)
             gnum++;
             if (i+1 < str.size() && str[i+1] == '?') //group with attrs
             {
-                i++;
-                if (i+1 < str.size() && str[i+1] == ':') //non-capturing
+                // named: ?<name>, ?P<name>. Anything else does not capture
+                size_t j = i + 2;
+                if (j < str.size() && str[j] == 'P')
+                    j++;
+                if (j + 1 >= str.size() || str[j] != '<' ||
+                    str[j + 1] == '=' || str[j + 1] == '!')
                 {
-                    if (gnum > 0) gnum--;
-                    res += str[i];
-                    i++;
-                    res += str[i];
+                    gnum--;
                     continue;
                 }
+                i++;
                 if (i+1 < str.size() && str[i+1] == 'P') //optional, python
                     i++;
                 if (i+1 < str.size() && str[i+1] == '<') //named
-- 
2.43.0


From 03cc1458da35bba7fbe8005668db574e2f9eadb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:12 +0000
Subject: [PATCH 034/106] fix: http_rewrite: parentheses in bracket expressions
 are no groups

A ( inside [..] was counted as a group, so that named groups after it got
the text of others.
---
 src/filter_http_rewrite.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index b69eae6..f69322f 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -648,6 +648,7 @@ void yf::HttpRewrite::Replace::parse_groups(std::string pattern)
 {
     int gnum = 0;
     bool esc = false;
+    size_t in_class = 0; // where first member of [..] may be, if inside one
     const std::string &str = pattern;
     std::string res;
     start_anchor = str[0] == '^';
@@ -660,7 +661,28 @@ void yf::HttpRewrite::Replace::parse_groups(std::string pattern)
             esc = true;
             continue;
         }
-        if (!esc && str[i] == '(') //group starts
+        if (in_class)
+        {
+            if (!esc && str[i] == '[' && i+1 < str.size()
+                && strchr(":.=", str[i+1]))
+            {   // [:alpha:] and the like
+                size_t j = str.find(std::string(1, str[i+1]) + "]", i+2);
+                if (j != std::string::npos)
+                {
+                    res += str.substr(i+1, j+1-i);
+                    i = j+1;
+                }
+            }
+            else if (!esc && str[i] == ']' && i > in_class)
+                in_class = 0;
+        }
+        else if (!esc && str[i] == '[')
+        {
+            in_class = i+1;
+            if (in_class < str.size() && str[in_class] == '^')
+                in_class++;
+        }
+        else if (!esc && str[i] == '(') //group starts
         {
             gnum++;
             if (i+1 < str.size() && str[i+1] == '?') //group with attrs
-- 
2.43.0


From fe0e239900277826b5e892694f6e3ddd4bebdaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:25 +0000
Subject: [PATCH 035/106] fix: http_rewrite: ignore malformed
 X-Metaproxy-SkipLink headers

A pattern in the client's header that is not a regular expression made
process throw, which nobody catches.
---
 src/filter_http_rewrite.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index f69322f..6044322 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -208,18 +208,25 @@ void yf::HttpRewrite::Phase::read_skip_headers(Z_HTTP_Request *hreq,
             continue; // should not happen
         std::string page(hv,p);
         std::string link(p+1);
-        boost::regex pagere(page);
-        if ( boost::regex_search(url, pagere) )
+        try
         {
-            yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
-                    page.c_str(), url.c_str() );
+            boost::regex pagere(page);
             boost::regex linkre(link);
-            skip_list.push_back(linkre);
+            if ( boost::regex_search(url, pagere) )
+            {
+                yaz_log(YLOG_LOG,"SkipLink '%s' matches URL %s",
+                        page.c_str(), url.c_str() );
+                skip_list.push_back(linkre);
+            }
+            else
+            {
+                yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
+                        url.c_str(), page.c_str() );
+            }
         }
-        else
-        {
-            yaz_log(YLOG_LOG,"SkipLink ignored, '%s' does not match '%s'",
-                    url.c_str(), page.c_str() );
+        catch (std::runtime_error &e)
+        {   // sent by client: not a pattern, or too complex
+            yaz_log(YLOG_WARN, "SkipLink '%s' ignored: %s", hv, e.what());
         }
     }
 }
-- 
2.43.0


From d9c64ced325b2554e134bc2fa77b731650c0d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 036/106] fix: http_rewrite: patterns that match the empty
 string

The same empty match was replaced for ever, using up all memory.
---
 src/filter_http_rewrite.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index 6044322..410924e 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -645,6 +645,12 @@ bool yf::HttpRewrite::Rule::test_patterns(
             out.append(rvalue);
         }
         start = bwhat[0].second; //move search forward
+        if (bwhat[0].first == bwhat[0].second)
+        {   // empty match: must get further
+            if (start == end)
+                break;
+            out.append(1, *start++);
+        }
     }
     out.append(start, end);
     txt = out;
-- 
2.43.0


From 28ab0f81890c7f6a7bdb53075a94590f976f3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 037/106] fix: http_rewrite: refuse malformed references in
 configuration

They were only noticed when the rule was used first, where nobody catches
the exception.
---
 src/filter_http_rewrite.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_http_rewrite.cpp b/src/filter_http_rewrite.cpp
index 410924e..1b005cb 100644
--- a/src/filter_http_rewrite.cpp
+++ b/src/filter_http_rewrite.cpp
@@ -951,6 +951,9 @@ void yf::HttpRewrite::configure_phase(const xmlNode *ptr, Phase &phase)
                             from.c_str(), replace.recipe.c_str());
                     if (!from.empty())
                     {
+                        // throws if references are malformed
+                        replace.sub_vars(
+                            std::map<std::string, std::string>());
                         replace.parse_groups(from);
                         rule->replace_list.push_back(replace);
                     }
-- 
2.43.0


From f0bb13884009b146f18fd3fd842c0d78ad50e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:59 +0000
Subject: [PATCH 038/106] fix: sru_z3950: only octet aligned records are XML
 text

---
 src/filter_sru_to_z3950.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c1af6df..f4ad8a8 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -871,7 +871,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                     }
                 }
                 else if (npr->which == Z_NamePlusRecord_databaseRecord &&
-                    npr->u.databaseRecord->direct_reference
+                    npr->u.databaseRecord->which == Z_External_octet
+                    && npr->u.databaseRecord->direct_reference
                     && !oid_oidcmp(npr->u.databaseRecord->direct_reference,
                                    yaz_oid_recsyn_xml))
                 {
-- 
2.43.0


From 13474f2327d059b9131483bc6b8df44e53d350fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 039/106] fix: sru_z3950: start record 0 is out of range

---
 src/filter_sru_to_z3950.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index f4ad8a8..c701be9 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -737,8 +737,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
                                YAZ_SRW_SORT_UNSUPP, 0);
     }
 
-    // start record requested negative, or larger than number of records
-    if (start < 0 || start > *sru_pdu_res->u.response->numberOfRecords)
+    // start record requested not positive, or larger than number of records
+    if (start < 1 || start > *sru_pdu_res->u.response->numberOfRecords)
     {
         send_z3950_present = false;
         yaz_add_srw_diagnostic(odr_en,
-- 
2.43.0


From 5c28964e7c943f223b8bd767be05795db9598de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 040/106] fix: sru_z3950: close the Z39.50 session when Init is
 refused

---
 src/filter_sru_to_z3950.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index c701be9..35abd8a 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -328,11 +328,13 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
         ok = mp_util::check_sru_query_exists(package, odr_en,
                                              sru_pdu_res, sr_req);
 
-        if (ok && z3950_init_request(package, odr_en,
-                                     zurl, sru_pdu_res, sru_pdu_req))
+        if (ok)
         {
-            ok = z3950_search_request(package, z3950_package, odr_en,
-                                      sru_pdu_res, sr_req, zurl, dbargs);
+            ok = z3950_init_request(package, odr_en,
+                                    zurl, sru_pdu_res, sru_pdu_req);
+            if (ok)
+                ok = z3950_search_request(package, z3950_package, odr_en,
+                                          sru_pdu_res, sr_req, zurl, dbargs);
 
             if (ok
                 && sru_pdu_res->u.response->numberOfRecords
@@ -341,6 +343,8 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
                 ok = z3950_present_request(package, odr_en,
                                            sru_pdu_res,
                                            sr_req);
+            // also when Init is refused: the next HTTP request of the
+            // session needs a new Z39.50 session
             z3950_close_request(package);
         }
     }
-- 
2.43.0


From 404524c285d0b4e7cb560c896da37eb2590ce843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 041/106] fix: sru_z3950: report multiple diagnostics of the
 server

---
 src/filter_sru_to_z3950.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 35abd8a..682fc5c 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -976,6 +976,23 @@ bool yf::SRUtoZ3950::Impl::z3950_to_srw_diagnostics_ok(
                           records->u.nonSurrogateDiagnostic);
         return false;
     }
+    if (records
+        && records->which == Z_Records_multipleNSD
+        && records->u.multipleNonSurDiagnostics->num_diagRecs > 0)
+    {
+        Z_DiagRecs *recs = records->u.multipleNonSurDiagnostics;
+        for (int i = 0; i < recs->num_diagRecs; i++)
+        {
+            Z_DiagRec *rec = recs->diagRecs[i];
+            if (rec->which == Z_DiagRec_defaultFormat)
+                z3950_to_srw_diag(odr_en, sru_res, rec->u.defaultFormat);
+            else
+                yaz_add_srw_diagnostic(odr_en, &sru_res->diagnostics,
+                                       &sru_res->num_diagnostics,
+                                       YAZ_SRW_PERMANENT_SYSTEM_ERROR, 0);
+        }
+        return false;
+    }
     return true;
 }
 
@@ -985,12 +1002,10 @@ int yf::SRUtoZ3950::Impl::z3950_to_srw_diag(
     Z_DefaultDiagFormat *ddf) const
 {
     int bib1_code = *ddf->condition;
-    sru_res->num_diagnostics = 1;
-    sru_res->diagnostics = (Z_SRW_diagnostic *)
-        odr_malloc(odr_en, sizeof(*sru_res->diagnostics));
-    yaz_mk_std_diagnostic(odr_en, sru_res->diagnostics,
-                          yaz_diag_bib1_to_srw(bib1_code),
-                          ddf->u.v2Addinfo);
+    yaz_add_srw_diagnostic(odr_en, &sru_res->diagnostics,
+                           &sru_res->num_diagnostics,
+                           yaz_diag_bib1_to_srw(bib1_code),
+                           ddf->u.v2Addinfo);
     return 0;
 }
 
-- 
2.43.0


From 9080622a153f23d132f92e4e966c0bda8823ed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:25 +0000
Subject: [PATCH 042/106] fix: sru_z3950: server that returns more records than
 asked for

---
 src/filter_sru_to_z3950.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 682fc5c..27154d5 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -847,6 +847,9 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
             // inserting all records
             int returned_recs =
                 pr->records->u.databaseOrSurDiagnostics->num_records;
+            // no more than we asked for (and have room for)
+            if (returned_recs > max_recs - num)
+                returned_recs = max_recs - num;
             for (int i = 0; i < returned_recs; i++)
             {
                 int position = i + *apdu->u.presentRequest->resultSetStartPoint;
-- 
2.43.0


From 6f064384e6153b3a0ac9e95bb51f87f3e55644a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 043/106] fix: sru_z3950: stop when the server returns no
 records

---
 src/filter_sru_to_z3950.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 27154d5..4dd1584 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -850,6 +850,8 @@ bool yf::SRUtoZ3950::Impl::z3950_present_request(
             // no more than we asked for (and have room for)
             if (returned_recs > max_recs - num)
                 returned_recs = max_recs - num;
+            if (returned_recs <= 0) // no progress, stop
+                break;
             for (int i = 0; i < returned_recs; i++)
             {
                 int position = i + *apdu->u.presentRequest->resultSetStartPoint;
-- 
2.43.0


From 2aeea0b9bf2a51649bf3d7788d109f67eabfa703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 044/106] fix: sru_z3950: explain record is XML whatever the
 database and host

---
 src/sru_util.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index 860453a..574cabc 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -27,6 +27,13 @@ namespace mp = metaproxy_1;
 // Doxygen doesn't like mp::gdu, so we use this instead
 namespace mp_util = metaproxy_1::util;
 
+static std::string xml_escape(const std::string &s)
+{
+    mp::wrbuf w;
+    wrbuf_xmlputs(w, s.c_str());
+    return std::string(wrbuf_cstr(w));
+}
+
 const std::string xmlns_explain("http://explain.z3950.org/dtd/2.0/");
 
 bool mp_util::build_sru_debug_package(mp::Package &package)
@@ -109,13 +116,13 @@ bool mp_util::build_sru_explain(metaproxy_1::Package &package,
                 "<explain  xmlns=\"" + xmlns_explain + "\">\n"
                 "  <serverInfo protocol='SRU'>\n"
                 "    <host>")
-            + sruinfo.host
+            + xml_escape(sruinfo.host)
             + mp_util::to_string("</host>\n"
                                  "    <port>")
-            + sruinfo.port
+            + xml_escape(sruinfo.port)
             + mp_util::to_string("</port>\n"
                                  "    <database>")
-            + sruinfo.database
+            + xml_escape(sruinfo.database)
             + mp_util::to_string("</database>\n"
                                  "  </serverInfo>\n"
                                  "</explain>\n");
-- 
2.43.0


From 3ab0f6dc7e2a5b71daf8164cebe89a770a2b78e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:41 +0000
Subject: [PATCH 045/106] fix: sru_z3950: host of the explain record when the
 Host header has no port

---
 src/sru_util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index 574cabc..8db238a 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -87,6 +87,8 @@ mp_util::SRUServerInfo mp_util::get_sru_server_info(mp::Package &package)
                 sruinfo.port.assign(http_host_address, iaddress + 1,
                                     std::string::npos);
             }
+            else if (http_host_address.size())
+                sruinfo.host = http_host_address;
         }
     }
 
-- 
2.43.0


From 51ab7a6ebf1f2d67d04769a6c2f833b2f2713b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:18 +0000
Subject: [PATCH 046/106] fix: sru_z3950: explain records outlive the
 configuration document

---
 src/filter_sru_to_z3950.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index 4dd1584..f930277 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -58,12 +58,14 @@ namespace metaproxy_1 {
         class SRUtoZ3950::Impl {
         public:
             Impl();
+            ~Impl();
             void configure(const xmlNode *xmlnode);
             void process(metaproxy_1::Package &package);
         private:
             FrontendPtr get_frontend(mp::Package &package);
             void release_frontend(mp::Package &package);
-            std::map<std::string, const xmlNode *> m_database_explain;
+            // explain records, owned by us: they must outlive the configuration
+            std::map<std::string, xmlNode *> m_database_explain;
             std::string default_stylesheet;
 
             typedef std::map<std::string, int> ActiveUrlMap;
@@ -146,6 +148,13 @@ yf::SRUtoZ3950::Impl::Impl()
     conf_max_recs = 0;
 }
 
+yf::SRUtoZ3950::Impl::~Impl()
+{
+    std::map<std::string, xmlNode *>::iterator it;
+    for (it = m_database_explain.begin(); it != m_database_explain.end(); it++)
+        xmlFreeNode(it->second);
+}
+
 void yf::SRUtoZ3950::Impl::configure(const xmlNode *confignode)
 {
     const xmlNode * dbnode;
@@ -171,8 +180,10 @@ void yf::SRUtoZ3950::Impl::configure(const xmlNode *confignode)
                 {
                     if (explainnode->type == XML_ELEMENT_NODE)
                     {
-                        m_database_explain.insert(
-                            std::make_pair(database, explainnode));
+                        if (m_database_explain.find(database)
+                            == m_database_explain.end())
+                            m_database_explain[database] =
+                                xmlCopyNode((xmlNode *) explainnode, 1);
                         break;
                     }
                 }
@@ -218,7 +229,7 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
 
     // determine database with the HTTP header information only
     mp_util::SRUServerInfo sruinfo = mp_util::get_sru_server_info(package);
-    std::map<std::string, const xmlNode *>::iterator idbexp;
+    std::map<std::string, xmlNode *>::iterator idbexp;
     idbexp = m_database_explain.find(sruinfo.database);
 
     // assign explain config XML DOM node if database is known
-- 
2.43.0


From ecb4fbf05d9eca44f514bcd59149f2119cb7c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:32 +0000
Subject: [PATCH 047/106] fix: sru_z3950: arguments of explain start at the
 first question mark

---
 src/sru_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sru_util.cpp b/src/sru_util.cpp
index 8db238a..4647e96 100644
--- a/src/sru_util.cpp
+++ b/src/sru_util.cpp
@@ -69,7 +69,7 @@ mp_util::SRUServerInfo mp_util::get_sru_server_info(mp::Package &package)
             std::string http_path = http_req->path;
 
             // taking out GET parameters
-            std::string::size_type ipath = http_path.rfind("?");
+            std::string::size_type ipath = http_path.find("?");
             if (ipath != std::string::npos)
                 http_path.assign(http_path, 0, ipath);
 
-- 
2.43.0


From 8bfc386ebc83e102c4e17ddcfbb9c0a565e47aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:25 +0000
Subject: [PATCH 048/106] fix: sru_z3950: report operations that are not
 supported

---
 src/filter_sru_to_z3950.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/filter_sru_to_z3950.cpp b/src/filter_sru_to_z3950.cpp
index f930277..292e6aa 100644
--- a/src/filter_sru_to_z3950.cpp
+++ b/src/filter_sru_to_z3950.cpp
@@ -373,13 +373,27 @@ void yf::SRUtoZ3950::Impl::sru(mp::Package &package, Z_GDU *zgdu_req)
                                &sru_pdu_res->u.scan_response->num_diagnostics,
                                YAZ_SRW_UNSUPP_OPERATION, "scan");
     }
+    else if (sru_pdu_req->which == Z_SRW_update_request)
+    {
+        sru_pdu_res =
+            yaz_srw_get_pdu_e(odr_en, Z_SRW_update_response, sru_pdu_req);
+        Z_SRW_updateResponse *u_res = sru_pdu_res->u.update_response;
+        u_res->operationStatus = odr_strdup(odr_en, "fail");
+        u_res->diagnostics = diagnostic;
+        u_res->num_diagnostics = num_diagnostic;
+        yaz_add_srw_diagnostic(odr_en,
+                               &u_res->diagnostics, &u_res->num_diagnostics,
+                               YAZ_SRW_UNSUPP_OPERATION, "update");
+    }
     else
     {
         sru_pdu_res =
             yaz_srw_get_pdu_e(odr_en, Z_SRW_explain_response, sru_pdu_req);
-        sru_pdu_res->u.explain_response->diagnostics = diagnostic;
-        sru_pdu_res->u.explain_response->num_diagnostics = num_diagnostic;
-        yaz_add_srw_diagnostic(odr_en, &diagnostic, &num_diagnostic,
+        Z_SRW_explainResponse *e_res = sru_pdu_res->u.explain_response;
+        e_res->diagnostics = diagnostic;
+        e_res->num_diagnostics = num_diagnostic;
+        yaz_add_srw_diagnostic(odr_en,
+                               &e_res->diagnostics, &e_res->num_diagnostics,
                                YAZ_SRW_UNSUPP_OPERATION, "unknown");
     }
     if (enable_package_log)
-- 
2.43.0


From a33db45c2263a884c37b13d1415c9015811007fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 049/106] fix: sort: do not serve records of another element
 set

---
 src/filter_sort.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 02ae667..6817a16 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -74,18 +74,20 @@ namespace metaproxy_1 {
         };
         class Sort::RecordList : boost::noncopyable {
             Odr_oid *syntax;
+            Z_RecordComposition *comp;
             std::list<Record> npr_list;
             mp::odr m_odr;
             std::string namespaces;
             std::string xpath_expr;
             bool debug;
         public:
-            bool cmp(Odr_oid *syntax);
+            bool cmp(Odr_oid *syntax, Z_RecordComposition *comp);
             void add(Z_NamePlusRecord *s);
             int size();
             Z_NamePlusRecord *get(int i, bool ascending);
             void sort();
-            RecordList(Odr_oid *, std::string namespaces,
+            RecordList(Odr_oid *, Z_RecordComposition *,
+                       std::string namespaces,
                        std::string xpath_expr, bool debug);
             ~RecordList();
         };
@@ -294,6 +296,7 @@ bool yf::Sort::Record::operator < (const Record &rhs) const
 }
 
 yf::Sort::RecordList::RecordList(Odr_oid *syntax,
+                                 Z_RecordComposition *comp,
                                  std::string a_namespaces,
                                  std::string a_xpath_expr,
                                  bool a_debug)
@@ -304,6 +307,8 @@ yf::Sort::RecordList::RecordList(Odr_oid *syntax,
         this->syntax = odr_oiddup(m_odr, syntax);
     else
         this->syntax = 0;
+    ODR oi = m_odr;
+    this->comp = comp ? yaz_clone_z_RecordComposition(comp, oi->mem) : 0;
 }
 
 yf::Sort::RecordList::~RecordList()
@@ -311,13 +316,17 @@ yf::Sort::RecordList::~RecordList()
 
 }
 
-bool yf::Sort::RecordList::cmp(Odr_oid *syntax)
+bool yf::Sort::RecordList::cmp(Odr_oid *syntax, Z_RecordComposition *comp)
 {
-    if ((!this->syntax && !syntax)
-        ||
-        (this->syntax && syntax && !oid_oidcmp(this->syntax, syntax)))
-        return true;
-    return false;
+    if ((this->syntax == 0) != (syntax == 0))
+        return false;
+    if (syntax && oid_oidcmp(this->syntax, syntax))
+        return false;
+    if ((this->comp == 0) != (comp == 0))
+        return false;
+    if (comp && !yaz_compare_z_RecordComposition(this->comp, comp))
+        return false;
+    return true;
 }
 
 int yf::Sort::RecordList::size()
@@ -509,14 +518,14 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
         std::list<RecordListPtr>::const_iterator it = s->record_lists.begin();
 
         for (; it != s->record_lists.end(); it++)
-            if ((*it)->cmp(syntax))
+            if ((*it)->cmp(syntax, comp))
                 return;
 
         Z_NamePlusRecordList *nprl = records->u.databaseOrSurDiagnostics;
         int i;    // i is number of records fetched in last response
 
         int pos = 1;
-        RecordListPtr rlp(new RecordList(syntax,
+        RecordListPtr rlp(new RecordList(syntax, comp,
                                          m_p->m_namespaces.c_str(),
                                          m_p->m_xpath_expr.c_str(),
                                          m_p->m_debug));
@@ -649,7 +658,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     ResultSetPtr rset = sets_it->second;
     std::list<RecordListPtr>::const_iterator it = rset->record_lists.begin();
     for (; it != rset->record_lists.end(); it++)
-        if ((*it)->cmp(req->preferredRecordSyntax))
+        if ((*it)->cmp(req->preferredRecordSyntax, req->recordComposition))
         {
             if (*req->resultSetStartPoint - 1 + *req->numberOfRecordsRequested
                 <= (*it)->size())
-- 
2.43.0


From d2d544af9bdcab10d053ef62e8b07253eea965fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:44 +0000
Subject: [PATCH 050/106] fix: sort: next position after the last record is 0

---
 src/filter_sort.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 6817a16..c77bc37 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -669,6 +669,8 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
 
                 *p_res->nextResultSetPosition = *req->resultSetStartPoint +
                     *req->numberOfRecordsRequested;
+                if (*p_res->nextResultSetPosition > rset->hit_count)
+                    *p_res->nextResultSetPosition = 0;
                 *p_res->numberOfRecordsReturned =
                     *req->numberOfRecordsRequested;
                 p_res->records = (Z_Records *)
-- 
2.43.0


From 0293e76daed12d7316ed3357387a4cca23e41f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:57 +0000
Subject: [PATCH 051/106] fix: sort: reference id of presents served from
 memory

---
 src/filter_sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index c77bc37..6ff212f 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -664,7 +664,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
                 <= (*it)->size())
             {
                 int i;
-                Z_APDU *p_apdu = zget_APDU(odr, Z_APDU_presentResponse);
+                Z_APDU *p_apdu = odr.create_presentResponse(apdu_req, 0, 0);
                 Z_PresentResponse *p_res = p_apdu->u.presentResponse;
 
                 *p_res->nextResultSetPosition = *req->resultSetStartPoint +
-- 
2.43.0


From 91af1e25bbfbd11d15dc3cd4dab4f9026da5e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:29 +0000
Subject: [PATCH 052/106] fix: sort: forget the records of deleted result sets

---
 src/filter_sort.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 6ff212f..08d0483 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -106,6 +106,7 @@ namespace metaproxy_1 {
             void handle_package(mp::Package &package);
             void handle_search(mp::Package &package, Z_APDU *apdu_req);
             void handle_present(mp::Package &package, Z_APDU *apdu_req);
+            void handle_delete(mp::Package &package, Z_APDU *apdu_req);
 
             void handle_records(mp::Package &package,
                                 Z_APDU *apdu_reqq,
@@ -714,6 +715,29 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
         b_package.session().close();
 }
 
+void yf::Sort::Frontend::handle_delete(mp::Package &package,
+                                       Z_APDU *apdu_req)
+{
+    // forget the records; the server tells whether the sets still exist
+    Z_DeleteResultSetRequest *req = apdu_req->u.deleteResultSetRequest;
+    Sets_it it;
+    if (*req->deleteFunction == Z_DeleteResultSetRequest_all)
+    {
+        for (it = m_sets.begin(); it != m_sets.end(); it++)
+            it->second->record_lists.clear();
+    }
+    else
+    {
+        for (int i = 0; i < req->num_resultSetList; i++)
+        {
+            it = m_sets.find(req->resultSetList[i]);
+            if (it != m_sets.end())
+                it->second->record_lists.clear();
+        }
+    }
+    package.move();
+}
+
 void yf::Sort::Frontend::handle_package(mp::Package &package)
 {
     Z_GDU *gdu = package.request().get();
@@ -728,6 +752,9 @@ void yf::Sort::Frontend::handle_package(mp::Package &package)
         case Z_APDU_presentRequest:
             handle_present(package, apdu_req);
             return;
+        case Z_APDU_deleteResultSetRequest:
+            handle_delete(package, apdu_req);
+            return;
         }
     }
     package.move();
-- 
2.43.0


From 2090224156fa88682c05acb8af6c28475e0c8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:45 +0000
Subject: [PATCH 053/106] fix: sort: records without record syntax

---
 src/filter_sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 08d0483..af41332 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -270,7 +270,7 @@ yf::Sort::Record::Record(Z_NamePlusRecord *n,
     {
         Z_External *ext = npr->u.databaseRecord;
 
-        if (ext->which == Z_External_octet &&
+        if (ext->which == Z_External_octet && ext->direct_reference &&
             !oid_oidcmp(ext->direct_reference, yaz_oid_recsyn_xml))
         {
             xmlDoc *doc = xmlParseMemory(
-- 
2.43.0


From 26e4c2694e99f0c253aa64eb1a075b3b868008d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:10 +0000
Subject: [PATCH 054/106] fix: sort: presents of records before the first or of
 a negative number

---
 src/filter_sort.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index af41332..b34d785 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -661,8 +661,11 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     for (; it != rset->record_lists.end(); it++)
         if ((*it)->cmp(req->preferredRecordSyntax, req->recordComposition))
         {
-            if (*req->resultSetStartPoint - 1 + *req->numberOfRecordsRequested
-                <= (*it)->size())
+            if (*req->resultSetStartPoint >= 1
+                && *req->numberOfRecordsRequested >= 0
+                && *req->resultSetStartPoint <= (*it)->size()
+                && *req->numberOfRecordsRequested
+                <= (*it)->size() - (*req->resultSetStartPoint - 1))
             {
                 int i;
                 Z_APDU *p_apdu = odr.create_presentResponse(apdu_req, 0, 0);
-- 
2.43.0


From f38e9013e8c6f338e9372a5882db5527b43448d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:44 +0000
Subject: [PATCH 055/106] fix: sort: a response without records does not end
 sorting

---
 src/filter_sort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index b34d785..311a72e 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -514,7 +514,8 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
                                         Z_RecordComposition *comp,
                                         const char *resultSetId)
 {
-    if (records && records->which == Z_Records_DBOSD && start_pos == 1)
+    if (records && records->which == Z_Records_DBOSD && start_pos == 1
+        && records->u.databaseOrSurDiagnostics->num_records > 0)
     {
         std::list<RecordListPtr>::const_iterator it = s->record_lists.begin();
 
-- 
2.43.0


From 591ed26ee45c5d99942beeb5e3734da773625e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:08 +0000
Subject: [PATCH 056/106] fix: sort: end the session when the server ends it

---
 src/filter_sort.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter_sort.cpp b/src/filter_sort.cpp
index 311a72e..7c45c77 100644
--- a/src/filter_sort.cpp
+++ b/src/filter_sort.cpp
@@ -556,6 +556,8 @@ void yf::Sort::Frontend::handle_records(mp::Package &package,
 
             present_package.request() = p_apdu;
             present_package.move();
+            if (present_package.session().is_closed())
+                package.session().close();
 
             Z_GDU *gdu_res = present_package.response().get();
             if (gdu_res && gdu_res->which == Z_GDU_Z3950 &&
@@ -632,7 +634,7 @@ void yf::Sort::Frontend::handle_search(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
@@ -716,7 +718,7 @@ void yf::Sort::Frontend::handle_present(mp::Package &package, Z_APDU *apdu_req)
     else
         package.response() = b_package.response();
     if (b_package.session().is_closed())
-        b_package.session().close();
+        package.session().close();
 }
 
 void yf::Sort::Frontend::handle_delete(mp::Package &package,
-- 
2.43.0


From f6b669cac552c29fcc08f039ce027ace622b77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:54 +0000
Subject: [PATCH 057/106] fix: record_transform: character set conversion of
 OPAC records left open

---
 src/filter_record_transform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_record_transform.cpp b/src/filter_record_transform.cpp
index 38db551..b756314 100644
--- a/src/filter_record_transform.cpp
+++ b/src/filter_record_transform.cpp
@@ -310,6 +310,8 @@ static void convert_npr(yaz_record_conv_t rc,
                         "XML to OPAC conversion failed");
             }
             yaz_marc_destroy(mt);
+            if (cd)
+                yaz_iconv_close(cd);
         }
         else
         {
-- 
2.43.0


From 5c13cc33fdb57684d74265518f2edea47fedc0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:18 +0000
Subject: [PATCH 058/106] fix: query_rewrite: a failed conversion leaves the
 request as it was

---
 src/filter_query_rewrite.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter_query_rewrite.cpp b/src/filter_query_rewrite.cpp
index 4828781..ade128a 100644
--- a/src/filter_query_rewrite.cpp
+++ b/src/filter_query_rewrite.cpp
@@ -94,7 +94,10 @@ void yf::QueryRewrite::Rep::process(mp::Package &package) const
             int error_code = 0;
             const char *addinfo = 0;
             mp::odr odr;
-            Z_SearchRequest *req = apdu_req->u.searchRequest;
+            // rewrite a copy: the parts made here go away with odr
+            yazpp_1::GDU gdu_copy(gdu);
+            Z_SearchRequest *req =
+                gdu_copy.get()->u.z3950->u.searchRequest;
 
             if (m_stylesheet)
             {
@@ -145,7 +148,7 @@ void yf::QueryRewrite::Rep::process(mp::Package &package) const
                 package.response() = f_apdu;
                 return;
             }
-            package.request() = gdu;
+            package.request() = gdu_copy.get();
         }
     }
     package.move();
-- 
2.43.0


From e5b790fbefab9ba21e659ddad03911704d833537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:56 +0000
Subject: [PATCH 059/106] fix: cql_rpn: the CQL made of a refused query was
 never freed

---
 src/filter_cql_rpn.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/filter_cql_rpn.cpp b/src/filter_cql_rpn.cpp
index dbe84e3..6099a4c 100644
--- a/src/filter_cql_rpn.cpp
+++ b/src/filter_cql_rpn.cpp
@@ -156,7 +156,7 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
         {
             char *addinfo = 0;
             mp::odr odr;
-            WRBUF cql = wrbuf_alloc();
+            mp::wrbuf cql;
 
             int r = m_cql2rpn.rpn2cql_transform(sr->query->u.type_1, cql,
                                                 odr, &addinfo);
@@ -176,14 +176,13 @@ void yf::CQLtoRPN::Impl::process(mp::Package &package)
                 ext->indirect_reference = 0;
                 ext->descriptor = 0;
                 ext->which = Z_External_CQL;
-                ext->u.cql = odr_strdup(odr, wrbuf_cstr(cql));
+                ext->u.cql = odr_strdup(odr, cql.c_str());
 
                 sr->query->which = Z_Query_type_104;
                 sr->query->u.type_104 = ext;
 
                 package.request() = gdu;
             }
-            wrbuf_destroy(cql);
         }
         if (!reverse && sr->query && sr->query->which == Z_Query_type_104 &&
             sr->query->u.type_104->which == Z_External_CQL)
-- 
2.43.0


From 3717948e38f8a0c751c71e24e0c23a308501dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:09 +0000
Subject: [PATCH 060/106] fix: auth_simple: forget the user of a session which
 has ended

---
 src/filter_auth_simple.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/filter_auth_simple.cpp b/src/filter_auth_simple.cpp
index 59358a4..6208e7c 100644
--- a/src/filter_auth_simple.cpp
+++ b/src/filter_auth_simple.cpp
@@ -65,6 +65,20 @@ namespace metaproxy_1 {
                 user = it->second;
                 return true;
             }
+            // forgets the user of a session which has ended
+            struct Release {
+                Rep *rep;
+                mp::Package &package;
+                Release(Rep *r, mp::Package &p) : rep(r), package(p) {}
+                ~Release()
+                {
+                    if (package.session().is_closed())
+                    {
+                        boost::mutex::scoped_lock lock(rep->mutex);
+                        rep->userBySession.erase(package.session());
+                    }
+                }
+            };
             Rep() { got_userRegister = false;
                     got_targetRegister = false;
                     discardUnauthorisedTargets = false; }
@@ -247,6 +261,7 @@ void mp::filter::AuthSimple::config_targetRegister(std::string filename,
 void yf::AuthSimple::process(mp::Package &package) const
 {
     Z_GDU *gdu = package.request().get();
+    Rep::Release release(m_p.get(), package);
 
     if (!gdu || gdu->which != Z_GDU_Z3950) {
         // Pass on the package -- This means that authentication is
-- 
2.43.0


From 64d468f70a5f32e18f150a0688a6dbc6f94df842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:27 +0000
Subject: [PATCH 061/106] fix: router_flexml: the document of a refused
 configuration was never freed

---
 src/router_flexml.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/router_flexml.cpp b/src/router_flexml.cpp
index 756c04b..1de907b 100644
--- a/src/router_flexml.cpp
+++ b/src/router_flexml.cpp
@@ -443,11 +443,9 @@ mp::RouterFleXML::RouterFleXML(std::string xmlconf, mp::FactoryFilter &factory,
                                    xmlconf.size());
     if (!doc)
         throw mp::XMLError("xmlParseMemory failed");
-    else
-    {
-        m_p->base(doc, factory, test_only, 0);
-        xmlFreeDoc(doc);
-    }
+    // also freed when the configuration is refused by an exception
+    boost::shared_ptr<xmlDoc> guard(doc, xmlFreeDoc);
+    m_p->base(doc, factory, test_only, 0);
 }
 
 mp::RouterFleXML::~RouterFleXML()
-- 
2.43.0


From b4acf38bf4150e2eb0169f79d236838f042ee3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 062/106] fix: backend_test: presents of a negative number of
 records or far positions

---
 src/filter_backend_test.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/filter_backend_test.cpp b/src/filter_backend_test.cpp
index d649561..fdd3106 100644
--- a/src/filter_backend_test.cpp
+++ b/src/filter_backend_test.cpp
@@ -53,7 +53,8 @@ namespace metaproxy_1 {
             Z_Records *fetch(
                 ODR odr, Odr_oid *preferredRecordSyntax,
                 Z_ElementSetNames *esn,
-                int start, int number, int &error_code, std::string &addinfo,
+                Odr_int start, Odr_int number,
+                int &error_code, std::string &addinfo,
                 int *number_returned, int *next_position);
 
             bool m_support_named_result_sets;
@@ -103,12 +104,14 @@ yf::BackendTest::~BackendTest() {
 Z_Records *yf::BackendTest::Rep::fetch(
     ODR odr, Odr_oid *preferredRecordSyntax,
     Z_ElementSetNames *esn,
-    int start, int number, int &error_code, std::string &addinfo,
+    Odr_int start, Odr_int number,
+    int &error_code, std::string &addinfo,
     int *number_returned, int *next_position)
 {
     const char *element_set_name = "F"; // default to use
 
-    if (number + start - 1 > result_set_size || start < 1)
+    if (start < 1 || start > result_set_size + 1 || number < 0
+        || number > result_set_size + 1 - start)
     {
         error_code = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
         return 0;
@@ -193,7 +196,7 @@ Z_Records *yf::BackendTest::Rep::fetch(
         {
             char *tmp_rec = odr_strdup(odr, marc_record);
             char offset_str[30];
-            sprintf(offset_str, "test__%09d_", i+start);
+            sprintf(offset_str, "test__%09d_", (int) (i+start));
             memcpy(tmp_rec+186, offset_str, strlen(offset_str));
             npr->u.databaseRecord = z_ext_record_usmarc(
                 odr, tmp_rec, strlen(tmp_rec));
-- 
2.43.0


From 49ce1997f24dfb7fa73e2da2b587215159817e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 063/106] fix: backend_test: named result sets are negotiated
 for each session

---
 src/filter_backend_test.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/filter_backend_test.cpp b/src/filter_backend_test.cpp
index fdd3106..972dd4e 100644
--- a/src/filter_backend_test.cpp
+++ b/src/filter_backend_test.cpp
@@ -57,9 +57,9 @@ namespace metaproxy_1 {
                 int &error_code, std::string &addinfo,
                 int *number_returned, int *next_position);
 
-            bool m_support_named_result_sets;
-
             session_map<Session_info> m_sessions;
+            // sessions for which named result sets were negotiated
+            session_map<Session_info> m_named_sessions;
         };
     }
 }
@@ -95,7 +95,6 @@ static const char *marc_record =
 
 
 yf::BackendTest::BackendTest() : m_p(new BackendTest::Rep) {
-    m_p->m_support_named_result_sets = false;
 }
 
 yf::BackendTest::~BackendTest() {
@@ -238,9 +237,6 @@ void yf::BackendTest::process(Package &package) const
             Z_InitResponse *resp = apdu_res->u.initResponse;
 
             resp->implementationName = odr_strdup(odr, "backend_test");
-            if (ODR_MASK_GET(req->options, Z_Options_namedResultSets))
-                m_p->m_support_named_result_sets = true;
-
             int i;
             static const int masks[] = {
                 Z_Options_search, Z_Options_present,
@@ -266,12 +262,16 @@ void yf::BackendTest::process(Package &package) const
 
             Session_info info;
             m_p->m_sessions.create(info, package.session());
+            if (ODR_MASK_GET(req->options, Z_Options_namedResultSets))
+                m_p->m_named_sessions.create(info, package.session());
+            else
+                m_p->m_named_sessions.release(package.session());
         }
         else if (apdu_req->which == Z_APDU_searchRequest)
         {
             Z_SearchRequest *req = apdu_req->u.searchRequest;
 
-            if (!m_p->m_support_named_result_sets &&
+            if (!m_p->m_named_sessions.exist(package.session()) &&
                 strcmp(req->resultSetName, "default"))
             {
                 apdu_res =
@@ -389,7 +389,10 @@ void yf::BackendTest::process(Package &package) const
             package.response() = apdu_res;
     }
     if (package.session().is_closed())
+    {
         m_p->m_sessions.release(package.session());
+        m_p->m_named_sessions.release(package.session());
+    }
 }
 
 void mp::filter::BackendTest::configure(const xmlNode * ptr, bool test_only,
-- 
2.43.0


From 029824bb3c6fe5a208b36375f3a33ea15a7b60b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:57 +0000
Subject: [PATCH 064/106] fix: backend_test: sizes of test records that
 overflow

---
 src/filter_backend_test.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/filter_backend_test.cpp b/src/filter_backend_test.cpp
index 972dd4e..5bc8257 100644
--- a/src/filter_backend_test.cpp
+++ b/src/filter_backend_test.cpp
@@ -67,6 +67,9 @@ namespace metaproxy_1 {
 
 static const int result_set_size = 42;
 
+// size of the largest XML test record, in kilobytes
+static const long max_xml_kbytes = 100000;
+
 // an ISO2709 USMARC/MARC21 record that we return..
 static const char *marc_record =
   "\x30\x30\x33\x36\x36\x6E\x61\x6D\x20\x20\x32\x32\x30\x30\x31\x36"
@@ -179,7 +182,14 @@ Z_Records *yf::BackendTest::Rep::fetch(
         {   // Huge XML test record
             size_t sz = 1024;
             if (element_set_name[2])
-                sz = atoi(element_set_name+2) * 1024;
+            {
+                long kbytes = atol(element_set_name+2);
+                if (kbytes < 0)
+                    kbytes = 0;
+                if (kbytes > max_xml_kbytes)
+                    kbytes = max_xml_kbytes;
+                sz = kbytes * 1024;
+            }
             if (sz < 10)
                 sz = 10;
             char *tmp_rec = (char*) xmalloc(sz);
-- 
2.43.0


From 61fbb969bde164471bdfde724093a53a21947979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 065/106] fix: log: responses with an empty list of diagnostics

---
 src/filter_log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 27ebadb..d8f0393 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -162,7 +162,9 @@ static void log_DefaultDiagFormat(WRBUF w, Z_DefaultDiagFormat *e)
 
 static void log_DiagRecs(WRBUF w, int num_diagRecs, Z_DiagRec **diags)
 {
-    if (diags[0]->which != Z_DiagRec_defaultFormat)
+    if (num_diagRecs < 1)
+        wrbuf_puts(w, "-");
+    else if (diags[0]->which != Z_DiagRec_defaultFormat)
         wrbuf_puts(w ,"(diag not in default format?)");
     else
     {
-- 
2.43.0


From aef1ed67fb1df000d5e46cc1c12ced9de645986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 066/106] fix: log: sort responses were read as requests

---
 src/filter_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index d8f0393..61e3351 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -397,7 +397,7 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         else
         {
             Z_SortResponse *res = z_res->u.sortResponse;
-            Z_SortRequest *req = z_res->u.sortRequest;
+            Z_SortRequest *req = z_req->u.sortRequest;
             int i;
 
             if (*res->sortStatus == Z_SortResponse_success)
-- 
2.43.0


From 96491981e6066887c038b9aaae62988a1efdb27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 067/106] fix: log: unknown requests without a response

---
 src/filter_log.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 61e3351..2caf757 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -481,7 +481,10 @@ static void log_1line_Z_APDU(Z_APDU *z_req, Z_APDU *z_res, WRBUF w)
         }
         break;
     default:
-        wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
+        if (!z_res)
+            wrbuf_printf(w, "REQ=%d ?", z_req->which);
+        else
+            wrbuf_printf(w, "REQ=%d RES=%d", z_req->which, z_res->which);
     }
 }
 
-- 
2.43.0


From bacbb47fef34bd0bcd41becb9b1e168cadbcbc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:33 +0000
Subject: [PATCH 068/106] fix: log: line breaks in values broke an entry into
 several lines

---
 src/filter_log.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/filter_log.cpp b/src/filter_log.cpp
index 2caf757..2090d9c 100644
--- a/src/filter_log.cpp
+++ b/src/filter_log.cpp
@@ -20,6 +20,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include "filter_log.hpp"
 #include <metaproxy/package.hpp>
 
+#include <algorithm>
 #include <string>
 #include <sstream>
 #include <iomanip>
@@ -846,6 +847,10 @@ yf::Log::Impl::LFile::~LFile()
 void yf::Log::Impl::LFile::log(const std::string &date_format,
                                std::ostringstream &os)
 {
+    // strictly one line per entry, also if values include line breaks
+    std::string message = os.str();
+    std::replace(message.begin(), message.end(), '\n', ' ');
+    std::replace(message.begin(), message.end(), '\r', ' ');
     if (fhandle)
     {
         char datestr[80];
@@ -861,11 +866,11 @@ void yf::Log::Impl::LFile::log(const std::string &date_format,
             fputs(datestr, fhandle);
             fputs(" ", fhandle);
         }
-        fputs(os.str().c_str(), fhandle);
+        fputs(message.c_str(), fhandle);
         fputc('\n', fhandle);
     }
     else
-        yaz_log(YLOG_LOG, "%s", os.str().c_str());
+        yaz_log(YLOG_LOG, "%s", message.c_str());
 }
 
 void yf::Log::Impl::LFile::flush()
-- 
2.43.0


From a10bcc57129f3d45d80b241af4dd89db086060e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 069/106] Undo the changes of backend_test: it counts as test
 code

---
 src/filter_backend_test.cpp | 40 +++++++++++--------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/filter_backend_test.cpp b/src/filter_backend_test.cpp
index 5bc8257..d649561 100644
--- a/src/filter_backend_test.cpp
+++ b/src/filter_backend_test.cpp
@@ -53,13 +53,12 @@ namespace metaproxy_1 {
             Z_Records *fetch(
                 ODR odr, Odr_oid *preferredRecordSyntax,
                 Z_ElementSetNames *esn,
-                Odr_int start, Odr_int number,
-                int &error_code, std::string &addinfo,
+                int start, int number, int &error_code, std::string &addinfo,
                 int *number_returned, int *next_position);
 
+            bool m_support_named_result_sets;
+
             session_map<Session_info> m_sessions;
-            // sessions for which named result sets were negotiated
-            session_map<Session_info> m_named_sessions;
         };
     }
 }
@@ -67,9 +66,6 @@ namespace metaproxy_1 {
 
 static const int result_set_size = 42;
 
-// size of the largest XML test record, in kilobytes
-static const long max_xml_kbytes = 100000;
-
 // an ISO2709 USMARC/MARC21 record that we return..
 static const char *marc_record =
   "\x30\x30\x33\x36\x36\x6E\x61\x6D\x20\x20\x32\x32\x30\x30\x31\x36"
@@ -98,6 +94,7 @@ static const char *marc_record =
 
 
 yf::BackendTest::BackendTest() : m_p(new BackendTest::Rep) {
+    m_p->m_support_named_result_sets = false;
 }
 
 yf::BackendTest::~BackendTest() {
@@ -106,14 +103,12 @@ yf::BackendTest::~BackendTest() {
 Z_Records *yf::BackendTest::Rep::fetch(
     ODR odr, Odr_oid *preferredRecordSyntax,
     Z_ElementSetNames *esn,
-    Odr_int start, Odr_int number,
-    int &error_code, std::string &addinfo,
+    int start, int number, int &error_code, std::string &addinfo,
     int *number_returned, int *next_position)
 {
     const char *element_set_name = "F"; // default to use
 
-    if (start < 1 || start > result_set_size + 1 || number < 0
-        || number > result_set_size + 1 - start)
+    if (number + start - 1 > result_set_size || start < 1)
     {
         error_code = YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE;
         return 0;
@@ -182,14 +177,7 @@ Z_Records *yf::BackendTest::Rep::fetch(
         {   // Huge XML test record
             size_t sz = 1024;
             if (element_set_name[2])
-            {
-                long kbytes = atol(element_set_name+2);
-                if (kbytes < 0)
-                    kbytes = 0;
-                if (kbytes > max_xml_kbytes)
-                    kbytes = max_xml_kbytes;
-                sz = kbytes * 1024;
-            }
+                sz = atoi(element_set_name+2) * 1024;
             if (sz < 10)
                 sz = 10;
             char *tmp_rec = (char*) xmalloc(sz);
@@ -205,7 +193,7 @@ Z_Records *yf::BackendTest::Rep::fetch(
         {
             char *tmp_rec = odr_strdup(odr, marc_record);
             char offset_str[30];
-            sprintf(offset_str, "test__%09d_", (int) (i+start));
+            sprintf(offset_str, "test__%09d_", i+start);
             memcpy(tmp_rec+186, offset_str, strlen(offset_str));
             npr->u.databaseRecord = z_ext_record_usmarc(
                 odr, tmp_rec, strlen(tmp_rec));
@@ -247,6 +235,9 @@ void yf::BackendTest::process(Package &package) const
             Z_InitResponse *resp = apdu_res->u.initResponse;
 
             resp->implementationName = odr_strdup(odr, "backend_test");
+            if (ODR_MASK_GET(req->options, Z_Options_namedResultSets))
+                m_p->m_support_named_result_sets = true;
+
             int i;
             static const int masks[] = {
                 Z_Options_search, Z_Options_present,
@@ -272,16 +263,12 @@ void yf::BackendTest::process(Package &package) const
 
             Session_info info;
             m_p->m_sessions.create(info, package.session());
-            if (ODR_MASK_GET(req->options, Z_Options_namedResultSets))
-                m_p->m_named_sessions.create(info, package.session());
-            else
-                m_p->m_named_sessions.release(package.session());
         }
         else if (apdu_req->which == Z_APDU_searchRequest)
         {
             Z_SearchRequest *req = apdu_req->u.searchRequest;
 
-            if (!m_p->m_named_sessions.exist(package.session()) &&
+            if (!m_p->m_support_named_result_sets &&
                 strcmp(req->resultSetName, "default"))
             {
                 apdu_res =
@@ -399,10 +386,7 @@ void yf::BackendTest::process(Package &package) const
             package.response() = apdu_res;
     }
     if (package.session().is_closed())
-    {
         m_p->m_sessions.release(package.session());
-        m_p->m_named_sessions.release(package.session());
-    }
 }
 
 void mp::filter::BackendTest::configure(const xmlNode * ptr, bool test_only,
-- 
2.43.0


From c2f45950ed182fdfa7986bd8f682df1b4a0185b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:56 +0000
Subject: [PATCH 070/106] fix: frontend_net: connections with several requests
 under way were freed too early or never

The statistics report and http-req-max deleted the association at once, though
requests of it could still be with a worker, and without a final package for
the session. A session closed by one request, or by the peer, while others
were under way was not closed when these completed later.
---
 src/filter_frontend_net.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 96922ec..6599d5c 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -127,6 +127,7 @@ namespace metaproxy_1 {
                         const char *peername);
             int m_no_requests;
             Port *m_port;
+            void request_done(bool close_session);
         private:
             yazpp_1::IPDU_Observer* sessionNotify(
                 yazpp_1::IPDU_Observable *the_PDU_Observable,
@@ -216,8 +217,6 @@ bool yf::FrontendNet::ThreadPoolPackage::cleanup(void *info)
 
 void yf::FrontendNet::ThreadPoolPackage::result(const char *t_info)
 {
-    m_assoc_child->m_no_requests--;
-
     yazpp_1::GDU *gdu = &m_package->response();
 
     if (gdu->get())
@@ -288,11 +287,7 @@ void yf::FrontendNet::ThreadPoolPackage::result(const char *t_info)
         m_package->session().close();
     }
 
-    if (m_assoc_child->m_no_requests == 0 && m_package->session().is_closed())
-    {
-        m_assoc_child->close();
-    }
-
+    m_assoc_child->request_done(m_package->session().is_closed());
 
     delete this;
 }
@@ -359,11 +354,23 @@ yf::FrontendNet::ZAssocChild::~ZAssocChild()
     }
 }
 
+// A request is done. Once the session is to be closed, the association goes
+// when no other requests refer to it.
+void yf::FrontendNet::ZAssocChild::request_done(bool close_session)
+{
+    m_no_requests--;
+    if (close_session)
+        m_delete_flag = true;
+    if (m_no_requests == 0 && m_delete_flag)
+        close();
+}
+
 void yf::FrontendNet::ZAssocChild::report(Z_HTTP_Request *hreq)
 {
     mp::odr o;
+    mp::Session session(m_session);
 
-    Z_GDU *gdu_res = o.create_HTTP_Response(m_session, hreq, 200);
+    Z_GDU *gdu_res = o.create_HTTP_Response(session, hreq, 200);
 
     Z_HTTP_Response *hres = gdu_res->u.HTTP_Response;
 
@@ -433,6 +440,8 @@ void yf::FrontendNet::ZAssocChild::report(Z_HTTP_Request *hreq)
 
 void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
 {
+    if (m_delete_flag) // session is about to be closed
+        return;
     m_no_requests++;
 
     mp::Package *p = new mp::Package(m_session, m_origin);
@@ -450,7 +459,7 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
         {
             report(hreq);
             delete p;
-            delete this;
+            request_done(true);
             return;
         }
     }
@@ -488,11 +497,12 @@ void yf::FrontendNet::ZAssocChild::recv_GDU(Z_GDU *z_pdu, int len)
                 if (con_sz < it->value)
                     break;
                 mp::odr o;
-                Z_GDU *gdu_res = o.create_HTTP_Response(m_session, hreq, 500);
+                mp::Session session(m_session);
+                Z_GDU *gdu_res = o.create_HTTP_Response(session, hreq, 500);
                 int len;
                 send_GDU(gdu_res, &len);
                 delete p;
-                delete this;
+                request_done(true);
                 return;
             }
         }
@@ -512,6 +522,7 @@ void yf::FrontendNet::ZAssocChild::failNotify()
 	return;
     }
     m_no_requests++;
+    m_delete_flag = true;
 
     m_session.close();
 
-- 
2.43.0


From 65be8f806e9d36d201eb4311b2751f3f6f416f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 071/106] fix: frontend_net: thread count is fixed unless
 max-threads is given

---
 src/filter_frontend_net.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter_frontend_net.cpp b/src/filter_frontend_net.cpp
index 6599d5c..93f3432 100644
--- a/src/filter_frontend_net.cpp
+++ b/src/filter_frontend_net.cpp
@@ -804,6 +804,7 @@ void yf::FrontendNet::configure(const xmlNode * ptr, bool test_only,
         throw yf::FilterException("No ports for Frontend");
     }
     std::vector<Port> ports;
+    bool max_threads_given = false;
     for (ptr = ptr->children; ptr; ptr = ptr->next)
     {
         if (ptr->type != XML_ELEMENT_NODE)
@@ -846,6 +847,7 @@ void yf::FrontendNet::configure(const xmlNode * ptr, bool test_only,
                 throw yf::FilterException("Bad value for max-threads: "
                                                    + threads_str);
             m_p->m_max_threads = threads;
+            max_threads_given = true;
         }
         else if (!strcmp((const char *) ptr->name, "stack-size"))
         {
@@ -919,6 +921,8 @@ void yf::FrontendNet::configure(const xmlNode * ptr, bool test_only,
                                                     ptr->name));
         }
     }
+    if (!max_threads_given) // thread count is fixed
+        m_p->m_max_threads = m_p->m_no_threads;
     if (m_p->m_msg_config.length() > 0 && m_p->m_stat_req.length() == 0)
     {   // allow stats if message is enabled for filter
         m_p->m_stat_req = "/fn_stat";
-- 
2.43.0


From 646c2d1b33439f2d8eec1ebad9d5c1a0bc7562b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 072/106] fix: thread_pool_observer: thread counts were read
 without the lock

---
 src/thread_pool_observer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/thread_pool_observer.cpp b/src/thread_pool_observer.cpp
index 7fdc43a..264cd9d 100644
--- a/src/thread_pool_observer.cpp
+++ b/src/thread_pool_observer.cpp
@@ -183,14 +183,15 @@ void ThreadPoolSocketObserver::socketNotify(int event)
             if (out)
             {
                 size_t input_size = 0;
+                unsigned tbusy, total;
                 std::ostringstream os;
                 {
                     boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
                     input_size = m_p->m_input.size();
+                    total = m_p->m_no_threads;
+                    tbusy = total - m_p->m_waiting_threads;
                 }
-                os << "tbusy/total "
-                    << m_p->m_no_threads - m_p->m_waiting_threads
-                    << "/" << m_p->m_no_threads
+                os << "tbusy/total " << tbusy << "/" << total
                     << " queue in/out " << input_size << "/" <<  output_size;
                 out->result(os.str().c_str());
             }
@@ -200,6 +201,7 @@ void ThreadPoolSocketObserver::socketNotify(int event)
 
 void ThreadPoolSocketObserver::get_thread_info(int &tbusy, int &total)
 {
+    boost::mutex::scoped_lock input_lock(m_p->m_mutex_input_data);
     tbusy = m_p->m_no_threads - m_p->m_waiting_threads;
     total = m_p->m_no_threads;
 }
-- 
2.43.0


From 5277a2d0f800b0b43f5e6d0652bbe6b2b001b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:15 +0000
Subject: [PATCH 073/106] fix: z3950_client: the Init request was left with
 freed parts

---
 src/filter_z3950_client.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index 627ed34..d85c8d5 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -603,6 +603,13 @@ void yf::Z3950Client::Rep::send_and_receive(Package &package,
     if (apdu->which == Z_APDU_initRequest && m_charset.length() > 0)
         set_charset_proposal(odr, apdu->u.initRequest, m_charset.c_str());
 
+    if (apdu->which == Z_APDU_initRequest)
+    {
+        // what was added belongs to odr, which the request outlives
+        package.request() = gdu;
+        gdu = package.request().get();
+    }
+
     // prepare response
     c->m_time_elapsed = 0;
     c->m_waiting = true;
-- 
2.43.0


From 8ee4daf6a86c9ff9d236f0af3daf37dd09b1108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 074/106] fix: z3950_client: packages passed on held up every
 other session

---
 src/filter_z3950_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_z3950_client.cpp b/src/filter_z3950_client.cpp
index d85c8d5..8fe6e49 100644
--- a/src/filter_z3950_client.cpp
+++ b/src/filter_z3950_client.cpp
@@ -368,6 +368,8 @@ yf::Z3950Client::Assoc *yf::Z3950Client::Rep::get_assoc(Package &package)
     }
     if (!gdu || gdu->which != Z_GDU_Z3950)
     {
+        // other sessions do not wait for what follows
+        lock.unlock();
         package.move();
         return 0;
     }
-- 
2.43.0


From 605c916092d3fed73596e1043771101e6bc1a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 075/106] fix: http_client: the request was left with freed
 parts

---
 src/filter_http_client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index e3d6116..88d43e6 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -107,6 +107,9 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
             pcomb.append(peer_name2);
             z_HTTP_header_set(o, &hreq->headers, "X-Forwarded-For",
                               pcomb.c_str());
+            // the request must not refer to memory of o
+            package.request() = req_gdu;
+            hreq = package.request().get()->u.HTTP_Request;
         }
         std::string uri;
         if (hreq->path[0] == '/')
-- 
2.43.0


From 54bb6e9b87cf3984ba84b8bc3c78decf8589e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 076/106] fix: http_client: missing target was not seen when
 bind_host is given

---
 src/filter_http_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index 88d43e6..a641de7 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -120,7 +120,7 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
         else
             uri = hreq->path;
 
-        if (bind_host)
+        if (bind_host && uri.length())
         {
             std::string host = package.origin().get_bind_address();
             uri.append(" ");
-- 
2.43.0


From 092f4eca772c6264debd567ffadb81c45e0beb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 077/106] fix: http_client: Host and User-Agent in other
 spellings were sent twice

---
 src/filter_http_client.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/filter_http_client.cpp b/src/filter_http_client.cpp
index a641de7..b55442a 100644
--- a/src/filter_http_client.cpp
+++ b/src/filter_http_client.cpp
@@ -21,6 +21,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <metaproxy/package.hpp>
 #include <metaproxy/util.hpp>
 #include <yaz/url.h>
+#include <yaz/matchstr.h>
 #include "filter_http_client.hpp"
 
 #include <yaz/zgdu.h>
@@ -135,9 +136,18 @@ void yf::HTTPClient::Rep::proxy(mp::Package &package)
         }
         else
         {
+            // YAZ makes Host itself and knows these in one spelling only
+            Z_HTTP_Header *headers = 0;
+            for (Z_HTTP_Header *h = hreq->headers; h; h = h->next)
+            {
+                if (!yaz_strcasecmp(h->name, "User-Agent"))
+                    z_HTTP_header_add(o, &headers, "User-Agent", h->value);
+                else if (yaz_strcasecmp(h->name, "Host"))
+                    z_HTTP_header_add(o, &headers, h->name, h->value);
+            }
             Z_HTTP_Response * http_response =
                 yaz_url_exec(yaz_url, uri.c_str(), hreq->method,
-                             hreq->headers, hreq->content_buf,
+                             headers, hreq->content_buf,
                              hreq->content_len);
             if (http_response)
             {
-- 
2.43.0


From b131477a6148beadf543a918d53d19b23bea804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 078/106] fix: zoom: empty CCL query ended the proxy

---
 src/filter_zoom.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 3a9c499..69b7f48 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -2439,10 +2439,9 @@ next_proxy:
         return;
     }
 
-    if (ccl_wrbuf.len())
+    if (pqf_wrbuf.len() == 0)
     {
         // CCL to PQF
-        assert(pqf_wrbuf.len() == 0);
         int cerror, cpos;
         struct ccl_rpn_node *cn;
         package.log("zoom", YLOG_LOG, "CCL: %s", wrbuf_cstr(ccl_wrbuf));
-- 
2.43.0


From d0ccfad50638f09e016fbf4b0f6fba04b2b925f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 079/106] fix: zoom: present crashed when no search had made a
 result set

---
 src/filter_zoom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 69b7f48..c9b56dd 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -2564,7 +2564,7 @@ void yf::Zoom::Frontend::handle_present(mp::Package &package)
     Z_PresentRequest *pr = apdu_req->u.presentRequest;
 
     mp::odr odr;
-    if (!m_backend)
+    if (!m_backend || (!m_backend->enable_explain && !m_backend->m_resultset))
     {
         package.response() = odr.create_presentResponse(
             apdu_req, YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST, 0);
-- 
2.43.0


From c53771083ab3f3f372f91ff995550729a9903553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 080/106] fix: zoom: layer of a target profile: empty one
 crashed, first setting lost

---
 src/filter_zoom.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index c9b56dd..c250f3b 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -579,17 +579,29 @@ yf::Zoom::Impl::~Impl()
     ccl_qual_rm(&bibset);
 }
 
+// first setting at ptr or after it; for a layer it's the first inside it
+static const xmlNode *first_setting(const xmlNode *ptr)
+{
+    while (ptr)
+    {
+        if (ptr->type != XML_ELEMENT_NODE)
+            ptr = ptr->next;
+        else if (!strcmp((const char *) ptr->name, "layer"))
+            ptr = ptr->children;
+        else
+            break;
+    }
+    return ptr;
+}
+
 yf::Zoom::SearchablePtr yf::Zoom::Impl::parse_torus_record(const xmlNode *ptr)
 {
     Zoom::SearchablePtr s(new Searchable(bibset));
 
-    for (ptr = ptr->children; ptr; ptr = ptr->next)
+    for (ptr = first_setting(ptr->children); ptr;
+         ptr = first_setting(ptr->next))
     {
-        if (ptr->type != XML_ELEMENT_NODE)
-            continue;
-        if (!strcmp((const char *) ptr->name, "layer"))
-            ptr = ptr->children;
-        else if (!strcmp((const char *) ptr->name,
+        if (!strcmp((const char *) ptr->name,
                          "authentication"))
         {
             s->authentication = mp::xml::get_text(ptr);
-- 
2.43.0


From e50537e2856975b6dde218fdeb0c66d5f498a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 081/106] fix: zoom: unknown requestSyntax crashed

---
 src/filter_zoom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index c250f3b..ff60c45 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1702,8 +1702,9 @@ void yf::Zoom::Frontend::prepare_elements(BackendPtr b,
             syntax_name = configured_request_syntax.c_str();
             const Odr_oid *syntax_oid =
                 yaz_string_to_oid(yaz_oid_std(), CLASS_RECSYN, syntax_name);
-            if (!oid_oidcmp(syntax_oid, yaz_oid_recsyn_usmarc)
-                || !oid_oidcmp(syntax_oid, yaz_oid_recsyn_opac))
+            if (syntax_oid &&
+                (!oid_oidcmp(syntax_oid, yaz_oid_recsyn_usmarc)
+                 || !oid_oidcmp(syntax_oid, yaz_oid_recsyn_opac)))
                 assume_marc8_charset = true;
         }
     }
-- 
2.43.0


From 6bc185727d5814f504bd98ddd6d6e872053a3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 082/106] fix: zoom: long recordEncoding overflowed a buffer

---
 src/filter_zoom.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index ff60c45..b8227b2 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1900,7 +1900,7 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
             }
             else if (enable_pz2_retrieval)
             {
-                char rec_type_str[100];
+                std::string rec_type_str(use_turbomarc ? "txml" : "xml");
                 const char *record_encoding = 0;
 
                 if (b->sptr->record_encoding.length())
@@ -1908,18 +1908,18 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
                 else if (assume_marc8_charset)
                     record_encoding = "marc8";
 
-                strcpy(rec_type_str, use_turbomarc ? "txml" : "xml");
                 if (record_encoding)
                 {
-                    strcat(rec_type_str, "; charset=");
-                    strcat(rec_type_str, record_encoding);
+                    rec_type_str += "; charset=";
+                    rec_type_str += record_encoding;
                 }
 
                 package.log("zoom", YLOG_LOG, "Getting record of type %s",
-                            rec_type_str);
+                            rec_type_str.c_str());
                 int rec_len;
                 xmlChar *xmlrec_buf = 0;
-                const char *rec_buf = ZOOM_record_get(recs[i], rec_type_str,
+                const char *rec_buf = ZOOM_record_get(recs[i],
+                                                      rec_type_str.c_str(),
                                                       &rec_len);
                 if (!rec_buf && !npr)
                 {
@@ -2016,7 +2016,7 @@ Z_Records *yf::Zoom::Frontend::get_records(mp::Package &package,
                         npr = zget_surrogateDiagRec(
                             odr, odr_database,
                             YAZ_BIB1_SYSTEM_ERROR_IN_PRESENTING_RECORDS,
-                            rec_type_str);
+                            rec_type_str.c_str());
                     else
                     {
                         npr = (Z_NamePlusRecord *)
-- 
2.43.0


From 4c254a9bd95693587ac541700ee5c1eb5dc12d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 083/106] fix: zoom: many cf_ settings overflowed the target
 arguments

---
 src/filter_zoom.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index b8227b2..a18990d 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1558,6 +1558,20 @@ yf::Zoom::BackendPtr yf::Zoom::Frontend::get_backend_from_databases(
             out_names[no_out_args] = "nocproxy";
             out_values[no_out_args++] = odr_strdup(odr, param_nocproxy);
         }
+        // make room for these too (and the terminator)
+        size_t max_out_args = no_out_args + sptr->cf_param.size() + 1;
+        const char **names1 = (const char **)
+            odr_malloc(odr, max_out_args * sizeof(*names1));
+        const char **values1 = (const char **)
+            odr_malloc(odr, max_out_args * sizeof(*values1));
+        for (i = 0; i < no_out_args; i++)
+        {
+            names1[i] = out_names[i];
+            values1[i] = out_values[i];
+        }
+        out_names = names1;
+        out_values = values1;
+
         std::map<std::string,std::string>::const_iterator it;
         for (it = sptr->cf_param.begin(); it != sptr->cf_param.end(); it++)
         {
-- 
2.43.0


From 448775ce91064587d4c184ea18cf8b069dd30463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 084/106] fix: zoom: message for multiple records overflowed
 with database arguments

---
 src/filter_zoom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index a18990d..0a28564 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1326,7 +1326,7 @@ yf::Zoom::BackendPtr yf::Zoom::Frontend::get_backend_from_databases(
                             *addinfo = (char*)
                                 odr_malloc(odr, 40 + torus_db.length());
                             sprintf(*addinfo, "multiple records for udb=%s",
-                                    database.c_str());
+                                    torus_db.c_str());
                             xmlFreeDoc(doc);
                             BackendPtr b;
                             return b;
-- 
2.43.0


From 8b8994644d7b954d55803e8227270122468601f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 085/106] fix: zoom: message for missing content config
 overflowed

---
 src/filter_zoom.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 0a28564..99d4809 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1073,7 +1073,8 @@ bool yf::Zoom::Frontend::create_content_session(mp::Package &package,
                             "unable to open content config %s",
                             m_p->content_config_file.c_str());
                 *error = YAZ_BIB1_TEMPORARY_SYSTEM_ERROR;
-                *addinfo = (char *)  odr_malloc(odr, 70 + tmp_file.length());
+                *addinfo = (char *)
+                    odr_malloc(odr, 70 + m_p->content_config_file.length());
                 sprintf(*addinfo, "zoom: unable to open content config %s",
                         m_p->content_config_file.c_str());
                 return false;
-- 
2.43.0


From b4348055146c8651c6559e67b0fb896519058c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 086/106] fix: zoom: memory of auth lookup and record_xsl was
 not freed

---
 src/filter_zoom.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 99d4809..8698be4 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -576,6 +576,8 @@ yf::Zoom::Impl::~Impl()
 {
     if (explain_xsp)
         xsltFreeStylesheet(explain_xsp);
+    if (record_xsp)
+        xsltFreeStylesheet(record_xsp);
     ccl_qual_rm(&bibset);
 }
 
@@ -2535,6 +2537,7 @@ next_proxy:
             apdu_res = odr.create_searchResponse(apdu_req, error,
                                                  wrb_addinfo.c_str_null());
             package.response() = apdu_res;
+            ZOOM_query_destroy(q);
             return;
         }
         ZOOM_query_cql(q, wrb_cql.c_str());
@@ -2839,11 +2842,10 @@ void yf::Zoom::Frontend::auth(mp::Package &package, Z_InitRequest *req,
         }
     }
     if (!ptr)
-    {
         *error = failure_code;
-        return;
-    }
-    session_realm = mp::xml::get_text(ptr);
+    else
+        session_realm = mp::xml::get_text(ptr);
+    xmlFreeDoc(doc);
 }
 
 void yf::Zoom::Impl::process(mp::Package &package)
-- 
2.43.0


From fcba4db4b00019c92e2bcaf56f76ee5a5bbea6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 087/106] fix: zoom: explain: negative number or empty
 recordData crashed

---
 src/filter_zoom.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 8698be4..ba4f102 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1771,6 +1771,9 @@ Z_Records *yf::Zoom::Frontend::get_explain_records(
     {
         return records;
     }
+    if (start < 0 || number_to_present <= 0)
+        return records;
+
     if (number_to_present > 10000)
         number_to_present = 10000;
 
@@ -1789,7 +1792,8 @@ Z_Records *yf::Zoom::Frontend::get_explain_records(
             break;
         xmlBufferPtr xml_buf = xmlBufferCreate();
         xmlNode *tmp_node = xmlCopyNode(res->children, 1);
-        xmlNodeDump(xml_buf, tmp_node->doc, tmp_node, 0, 0);
+        if (tmp_node)
+            xmlNodeDump(xml_buf, tmp_node->doc, tmp_node, 0, 0);
 
         Z_NamePlusRecord *npr =
             (Z_NamePlusRecord *) odr_malloc(odr, sizeof(*npr));
@@ -1799,7 +1803,8 @@ Z_Records *yf::Zoom::Frontend::get_explain_records(
             z_ext_record_xml(odr,
                              (const char *) xml_buf->content, xml_buf->use);
         npl->records[i] = npr;
-        xmlFreeNode(tmp_node);
+        if (tmp_node)
+            xmlFreeNode(tmp_node);
         xmlBufferFree(xml_buf);
     }
     records = (Z_Records*) odr_malloc(odr, sizeof(*records));
-- 
2.43.0


From 944f9012e32a7b9eb8fc559ec6e08500f379ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 088/106] fix: zoom: session was left open after a second Init

---
 src/filter_zoom.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index ba4f102..5a0c9c7 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -2676,6 +2676,7 @@ void yf::Zoom::Frontend::handle_package(mp::Package &package)
                 apdu_req,
                 Z_Close_protocolError,
                 "double init");
+            package.session().close();
         }
         else if (apdu_req->which == Z_APDU_searchRequest)
         {
-- 
2.43.0


From d0876f318447df4c652c97f53d7468850383fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:27 +0000
Subject: [PATCH 089/106] fix: zoom: requestSyntax was used after it was freed

---
 src/filter_zoom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 5a0c9c7..daf30c4 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1713,7 +1713,7 @@ void yf::Zoom::Frontend::prepare_elements(BackendPtr b,
 
     if (enable_pz2_retrieval)
     {
-        std::string configured_request_syntax = b->sptr->request_syntax;
+        const std::string &configured_request_syntax = b->sptr->request_syntax;
         if (configured_request_syntax.length())
         {
             syntax_name = configured_request_syntax.c_str();
-- 
2.43.0


From 2e9bfd66fd4361daead009613ac23bcfa55f828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:50 +0000
Subject: [PATCH 090/106] fix: zoom: schema of an earlier request was sent with
 later ones

---
 src/filter_zoom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index daf30c4..9151a9d 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -1748,7 +1748,7 @@ void yf::Zoom::Frontend::prepare_elements(BackendPtr b,
     }
 
     b->set_option("elementSetName", element_set_name);
-    if (b->sptr->sru.length() && element_set_name)
+    if (b->sptr->sru.length())
         b->set_option("schema", element_set_name);
 }
 
-- 
2.43.0


From dd3469c0dc701871d3821c9f470c04d00a9367bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:50 +0000
Subject: [PATCH 091/106] fix: zoom: facets of an earlier search were asked for
 again

---
 src/filter_zoom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 9151a9d..28d6537 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -393,6 +393,8 @@ void yf::Zoom::Backend::search(ZOOM_query q, Odr_int *hits,
         set_option("facets", wrbuf_cstr(w));
         wrbuf_destroy(w);
     }
+    else
+        set_option("facets", (const char *) 0);
     m_resultset = ZOOM_connection_search(m_connection, q);
     get_zoom_error(error, addinfo, odr);
     if (*error == 0)
-- 
2.43.0


From fdd8c9eee7ce5504417327e53c6ce9a1097d9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:30 +0000
Subject: [PATCH 092/106] fix: zoom: cclmap after torus was not used for local
 target profiles

---
 src/filter_zoom.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index 28d6537..a053508 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -806,6 +806,17 @@ void yf::Zoom::Impl::configure(const xmlNode *ptr, bool test_only,
     {
         file_path = path;
     }
+    // base CCL maps first, because local target profiles are based on them
+    const xmlNode *ptr1;
+    for (ptr1 = ptr->children; ptr1; ptr1 = ptr1->next)
+    {
+        if (ptr1->type == XML_ELEMENT_NODE &&
+            !strcmp((const char *) ptr1->name, "cclmap"))
+        {
+            const char *addinfo = 0;
+            ccl_xml_config(bibset, ptr1, &addinfo);
+        }
+    }
     for (ptr = ptr->children; ptr; ptr = ptr->next)
     {
         if (ptr->type != XML_ELEMENT_NODE)
@@ -855,10 +866,7 @@ void yf::Zoom::Impl::configure(const xmlNode *ptr, bool test_only,
             configure_local_records(ptr->children, test_only);
         }
         else if (!strcmp((const char *) ptr->name, "cclmap"))
-        {
-            const char *addinfo = 0;
-            ccl_xml_config(bibset, ptr, &addinfo);
-        }
+            ; // already done
         else if (!strcmp((const char *) ptr->name, "fieldmap"))
         {
             const struct _xmlAttr *attr;
-- 
2.43.0


From 8866f4c1c4dbc035b49756517e4c36318f72a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:00 +0000
Subject: [PATCH 093/106] fix: zoom: content session file of another session
 was overwritten

---
 src/filter_zoom.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/filter_zoom.cpp b/src/filter_zoom.cpp
index a053508..e9f25e7 100644
--- a/src/filter_zoom.cpp
+++ b/src/filter_zoom.cpp
@@ -18,6 +18,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "config.hpp"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <sys/types.h>
 #include "filter_zoom.hpp"
@@ -1117,14 +1118,19 @@ bool yf::Zoom::Frontend::create_content_session(mp::Package &package,
             return false;
         }
         char tmp_char = xx[6];
-        sprintf(xx, "%06d", ((unsigned) rand()) % 1000000);
-        if (legacy_format)
-            b->cproxy_host = std::string(xx) + "." + proxyhostname;
-        else
-            b->cproxy_host = proxyhostname + "/" + xx;
-        xx[6] = tmp_char;
+        FILE *file = 0;
+        int tries = 0;
+        do
+        {
+            sprintf(xx, "%06d", ((unsigned) rand()) % 1000000);
+            if (legacy_format)
+                b->cproxy_host = std::string(xx) + "." + proxyhostname;
+            else
+                b->cproxy_host = proxyhostname + "/" + xx;
+            xx[6] = tmp_char;
 
-        FILE *file = fopen(fname, "w");
+            file = fopen(fname, "wx"); // never one that is in use already
+        } while (!file && errno == EEXIST && ++tries < 1000);
         if (!file)
         {
             package.log("zoom", YLOG_WARN|YLOG_ERRNO, "create %s", fname);
-- 
2.43.0


From 3e7d740fd1663308563c61f522d7720e90919be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 094/106] fix: cgi: program that reads its input to the end got
 no end of it

---
 src/filter_cgi.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 70b16f0..82881a9 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -220,6 +220,11 @@ void yf::CGI::process(mp::Package &package) const
                 fcntl(fds_response[0], F_SETFL, O_NONBLOCK);
                 fcntl(fds_request[1], F_SETFL, O_NONBLOCK);
                 int no_write = 0;
+                if (hreq->content_len == 0)
+                {
+                    close(fds_request[1]);
+                    fds_request[1] = -1;
+                }
                 while (1)
                 {
                     int num = 1;
@@ -251,9 +256,15 @@ void yf::CGI::process(mp::Package &package) const
                         if (wd <= 0)
                             break;
                         no_write += wd;
+                        if (no_write == hreq->content_len)
+                        {   // program gets EOF
+                            close(fds_request[1]);
+                            fds_request[1] = -1;
+                        }
                     }
                 }
-                close(fds_request[1]);
+                if (fds_request[1] != -1)
+                    close(fds_request[1]);
                 close(fds_response[0]);
                 waitpid(pid, &status, 0);
 
-- 
2.43.0


From 26b09dfc8e35d3a87d6bc2a5b7f5c666e24074ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 095/106] fix: cgi: output was lost when the program did not
 read all content

---
 src/filter_cgi.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 82881a9..4bd5725 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -28,6 +28,7 @@ Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 #include <signal.h>
 #include <sys/wait.h>
 #include <yaz/poll.h>
+#include <errno.h>
 #include <sstream>
 
 #include "config.hpp"
@@ -231,7 +232,7 @@ void yf::CGI::process(mp::Package &package) const
                     struct yaz_poll_fd fds[2];
                     fds[0].fd = fds_response[0];
                     fds[0].input_mask = yaz_poll_read;
-                    if (no_write < hreq->content_len)
+                    if (fds_request[1] != -1)
                     {
                         fds[1].fd = fds_request[1];
                         fds[1].input_mask = yaz_poll_write;
@@ -248,16 +249,16 @@ void yf::CGI::process(mp::Package &package) const
                             break;
                         wrbuf_write(w, buf, rd);
                     }
-                    if (num == 2 && fds[1].output_mask & yaz_poll_write)
+                    if (num == 2 && fds[1].output_mask)
                     {
                         ssize_t wd = write(fds_request[1],
                                            hreq->content_buf + no_write,
                                            hreq->content_len - no_write);
-                        if (wd <= 0)
-                            break;
-                        no_write += wd;
-                        if (no_write == hreq->content_len)
-                        {   // program gets EOF
+                        if (wd > 0)
+                            no_write += wd;
+                        if ((wd <= 0 && errno != EAGAIN)
+                            || no_write == hreq->content_len)
+                        {   // program gets EOF or does not want more
                             close(fds_request[1]);
                             fds_request[1] = -1;
                         }
-- 
2.43.0


From 85af7d195f3945ff073c349502cf9a921c22bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 096/106] fix: cgi: programs inherited the pipes of other
 requests

---
 src/filter_cgi.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 4bd5725..f064132 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -157,12 +157,14 @@ void yf::CGI::process(mp::Package &package) const
     }
     std::list<CGI::Exec>::const_iterator it;
     metaproxy_1::odr odr;
+    static boost::mutex fork_mutex; // pipes not closed on exec yet
     Z_HTTP_Request *hreq = zgdu_req->u.HTTP_Request;
     const char *path_cstr = hreq->path;
     for (it = m_p->exec_map.begin(); it != m_p->exec_map.end(); it++)
     {
         if (strncmp(it->path.c_str(), path_cstr, it->path.length()) == 0)
         {
+            boost::mutex::scoped_lock fork_lock(fork_mutex);
             int fds_response[2];
             int r = pipe(fds_response);
             if (r == -1)
@@ -184,6 +186,12 @@ void yf::CGI::process(mp::Package &package) const
                 continue;
             }
 
+            int i;
+            for (i = 0; i < 2; i++)
+            {
+                fcntl(fds_response[i], F_SETFD, FD_CLOEXEC);
+                fcntl(fds_request[i], F_SETFD, FD_CLOEXEC);
+            }
             int status;
             pid_t pid = ::fork();
             switch (pid)
@@ -209,6 +217,7 @@ void yf::CGI::process(mp::Package &package) const
                 package.response() = zgdu_res;
                 break;
             default: /* parent */
+                fork_lock.unlock();
                 close(fds_response[1]);
                 close(fds_request[0]);
                 if (pid)
-- 
2.43.0


From c2a36485980faf5705c976546dfee339c4e4e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 097/106] fix: cgi: failed exec ran exit handlers of the proxy
 and sent its buffered output

---
 src/filter_cgi.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index f064132..9eaf529 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -139,10 +139,8 @@ void yf::CGI::Rep::child(Z_HTTP_Request *hreq, const CGI::Exec *it)
     }
     else
         cp = program;
-    int r = execl(cp, cp, (char *) 0);
-    if (r == -1)
-        exit(1);
-    exit(0);
+    execl(cp, cp, (char *) 0);
+    _exit(1);
 }
 
 void yf::CGI::process(mp::Package &package) const
-- 
2.43.0


From 35de16c497c605a681475877038a1128f5ec68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 098/106] fix: cgi: documentroot was ignored

---
 src/filter_cgi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index 9eaf529..aaaba08 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -358,7 +358,9 @@ void yf::CGI::configure(const xmlNode *ptr, bool test_only, const char *path)
         }
         else if (!strcmp((const char *) ptr->name, "documentroot"))
         {
-            m_p->documentroot = path;
+            m_p->documentroot = mp::xml::get_text(ptr);
+            if (path && *m_p->documentroot.c_str() != '/')
+                m_p->documentroot = path + ("/" + m_p->documentroot);
         }
         else
         {
-- 
2.43.0


From 81adf26ffa8a95bc012c85b27cd7b319f6471c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 099/106] fix: cgi: no CONTENT_LENGTH for content without
 Content-Type

---
 src/filter_cgi.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index aaaba08..bf04aeb 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -115,13 +115,14 @@ void yf::CGI::Rep::child(Z_HTTP_Request *hreq, const CGI::Exec *it)
     setenv("GATEWAY_INTERFACE", "CGI/1.1", 1);
 
     v = z_HTTP_header_lookup(hreq->headers, "Content-Type");
-    if (v)
+    if (v || hreq->content_len)
     {
         char tmp[40];
         sprintf(tmp, "%d", hreq->content_len);
         setenv("CONTENT_LENGTH", tmp, 1);
-        setenv("CONTENT_TYPE", v, 1);
     }
+    if (v)
+        setenv("CONTENT_TYPE", v, 1);
     // apply user-defined environment
     std::map<std::string,std::string>::const_iterator it_e;
     for (it_e = env_map.begin();
-- 
2.43.0


From f327cfe6a9579359c3c6fb448970ac3ac46122be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:46 +0000
Subject: [PATCH 100/106] fix: cgi: program with no output at all was reported
 as a success

---
 src/filter_cgi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter_cgi.cpp b/src/filter_cgi.cpp
index bf04aeb..a662ca6 100644
--- a/src/filter_cgi.cpp
+++ b/src/filter_cgi.cpp
@@ -226,6 +226,7 @@ void yf::CGI::process(mp::Package &package) const
                 }
                 WRBUF w = wrbuf_alloc();
                 wrbuf_puts(w, "HTTP/1.1 200 OK\r\n");
+                size_t status_len = wrbuf_len(w);
                 fcntl(fds_response[0], F_SETFL, O_NONBLOCK);
                 fcntl(fds_request[1], F_SETFL, O_NONBLOCK);
                 int no_write = 0;
@@ -285,7 +286,7 @@ void yf::CGI::process(mp::Package &package) const
                 ODR dec = odr_createmem(ODR_DECODE);
                 odr_setbuf(dec, wrbuf_buf(w), wrbuf_len(w), 0);
                 r = z_GDU(dec, &zgdu_res, 0, 0);
-                if (r && zgdu_res)
+                if (r && zgdu_res && wrbuf_len(w) > status_len)
                 {
                     package.response() = zgdu_res;
                 }
-- 
2.43.0


From 225a1944e7e41d94d0c16162559c520013eeb86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:42 +0000
Subject: [PATCH 101/106] fix: zeerex_explain: explain records outlive the
 configuration document

---
 src/filter_zeerex_explain.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/filter_zeerex_explain.cpp b/src/filter_zeerex_explain.cpp
index f82039d..17905bd 100644
--- a/src/filter_zeerex_explain.cpp
+++ b/src/filter_zeerex_explain.cpp
@@ -45,10 +45,12 @@ namespace metaproxy_1 {
     namespace filter {
         class ZeeRexExplain::Impl {
         public:
+            ~Impl();
             void configure(const xmlNode *xmlnode);
             void process(metaproxy_1::Package &package);
         private:
-            std::map<std::string, const xmlNode *> m_database_explain;
+            // explain records, owned by us: they must outlive the configuration
+            std::map<std::string, xmlNode *> m_database_explain;
         };
     }
 }
@@ -72,6 +74,14 @@ void yf::ZeeRexExplain::process(mp::Package &package) const
     m_p->process(package);
 }
 
+yf::ZeeRexExplain::Impl::~Impl()
+{
+    std::map<std::string, xmlNode *>::iterator it;
+    for (it = m_database_explain.begin(); it != m_database_explain.end(); it++)
+        if (it->second)
+            xmlFreeNode(it->second);
+}
+
 void yf::ZeeRexExplain::Impl::configure(const xmlNode *confignode)
 {
     const xmlNode * dbnode;
@@ -100,7 +110,9 @@ void yf::ZeeRexExplain::Impl::configure(const xmlNode *confignode)
                     break;
             }
             // assigning explain node to database name - no check yet
-            m_database_explain.insert(std::make_pair(database, explainnode));
+            if (m_database_explain.find(database) == m_database_explain.end())
+                m_database_explain[database] = explainnode ?
+                    xmlCopyNode((xmlNode *) explainnode, 1) : 0;
          }
     }
 }
@@ -129,7 +141,7 @@ void yf::ZeeRexExplain::Impl::process(mp::Package &package)
     mp_util::SRUServerInfo sruinfo = mp_util::get_sru_server_info(package);
 
     const xmlNode *explainnode = 0;
-    std::map<std::string, const xmlNode *>::iterator idbexp;
+    std::map<std::string, xmlNode *>::iterator idbexp;
     idbexp = m_database_explain.find(sruinfo.database);
 
     //std::cout << "Finding " << sruinfo.database << "\n";
-- 
2.43.0


From cc47512280236be7fca79b4acb346abc931c2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:42 +0000
Subject: [PATCH 102/106] fix: zeerex_explain: crash on a request that is no
 SRU request

---
 src/filter_zeerex_explain.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/filter_zeerex_explain.cpp b/src/filter_zeerex_explain.cpp
index 17905bd..3115b92 100644
--- a/src/filter_zeerex_explain.cpp
+++ b/src/filter_zeerex_explain.cpp
@@ -171,10 +171,20 @@ void yf::ZeeRexExplain::Impl::process(mp::Package &package)
                &diagnostic, &num_diagnostic, &soap,
                charset)))
     {
-        mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
-                                   sruinfo, explainnode);
-        mp_util::build_sru_response(package, odr_en, soap,
-                           sru_pdu_res, charset, stylesheet);
+        if (soap)
+        {
+            mp_util::build_sru_explain(package, odr_en, sru_pdu_res,
+                                       sruinfo, explainnode);
+            mp_util::build_sru_response(package, odr_en, soap,
+                                        sru_pdu_res, charset, stylesheet);
+        }
+        else
+        {
+            mp::odr odr;
+            package.response() =
+                odr.create_HTTP_Response(package.session(),
+                                         zgdu_req->u.HTTP_Request, 400);
+        }
         package.session().close();
         return;
     }
-- 
2.43.0


From b077c0099d1b48821396bd1a61a9e51d5d4c5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:42 +0000
Subject: [PATCH 103/106] fix: zeerex_explain: database names were written to
 standard output

---
 src/filter_zeerex_explain.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/filter_zeerex_explain.cpp b/src/filter_zeerex_explain.cpp
index 3115b92..925e4ba 100644
--- a/src/filter_zeerex_explain.cpp
+++ b/src/filter_zeerex_explain.cpp
@@ -99,8 +99,6 @@ void yf::ZeeRexExplain::Impl::configure(const xmlNode *confignode)
             mp::xml::check_attribute(attr, "", "name");
             database = mp::xml::get_text(attr);
 
-            std::cout << database << "\n";
-
             const xmlNode *explainnode;
             for (explainnode = dbnode->children;
                  explainnode; explainnode = explainnode->next){
-- 
2.43.0


From bc0483b872460206b426fdd542aaa2c9d84ea6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:56 +0000
Subject: [PATCH 104/106] fix: program: -w turned on debug mode, so that -D and
 -u had no effect

---
 src/metaproxy_prog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metaproxy_prog.cpp b/src/metaproxy_prog.cpp
index fd0302a..dac9760 100644
--- a/src/metaproxy_prog.cpp
+++ b/src/metaproxy_prog.cpp
@@ -213,6 +213,7 @@ static int sc_main(
                 std::cerr << "chdir " << arg << " failed" << std::endl;
                 return 1;
             }
+            break;
         case 'X':
             mode = YAZ_DAEMON_DEBUG;
             break;
-- 
2.43.0


From c941405ae5df841ec4235222aea9afbea2943f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:26 +0000
Subject: [PATCH 105/106] fix: http_rewrite1: crash when there is no HTTP
 response

---
 src/filter_http_rewrite1.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/filter_http_rewrite1.cpp b/src/filter_http_rewrite1.cpp
index b1132cd..a1d01bd 100644
--- a/src/filter_http_rewrite1.cpp
+++ b/src/filter_http_rewrite1.cpp
@@ -105,11 +105,10 @@ void yf::HttpRewrite1::process(mp::Package &package) const
         package.move();
 
         Z_GDU *gdu_res = package.response().get();
-        Z_HTTP_Response *hres = gdu_res->u.HTTP_Response;
-        if (hres)
+        if (gdu_res && gdu_res->which == Z_GDU_HTTP_Response)
         {
             mp::odr o;
-            m_p->rewrite_response(o, hres);
+            m_p->rewrite_response(o, gdu_res->u.HTTP_Response);
             package.response() = gdu_res;
         }
     }
-- 
2.43.0


From 3de0f84601db140c3c3b680836c67f9ef0e9290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:51 +0000
Subject: [PATCH 106/106] fix: http_rewrite1: content was cut off at a zero
 byte

---
 src/filter_http_rewrite1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter_http_rewrite1.cpp b/src/filter_http_rewrite1.cpp
index a1d01bd..574870e 100644
--- a/src/filter_http_rewrite1.cpp
+++ b/src/filter_http_rewrite1.cpp
@@ -88,8 +88,8 @@ void yf::HttpRewrite1::Rep::rewrite_response(mp::odr &o, Z_HTTP_Response *hres)
         }
         if (number_of_replaces > 0)
         {
-            hres->content_buf = odr_strdup(o, text.c_str());
-            hres->content_len = strlen(hres->content_buf);
+            hres->content_buf = odr_strdupn(o, text.data(), text.length());
+            hres->content_len = text.length();
         }
     }
 }
-- 
2.43.0

