From d2a2641663ea6e200a5910126f630fd88e2cf441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 01/27] fix: evaluate negated conditions

Document::evalPredicate() aborted on Predicate::NEGATION, which the
parsers build for 'not' and isNegated.
---
 lib/Document.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index e366275..b26bf67 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -501,7 +501,14 @@ Document::evalPredicate (Predicate *pred)
         return result;
       }
     case Predicate::NEGATION:
-      g_assert_not_reached ();
+      {
+        bool result;
+
+        g_assert (pred->getChildren ()->size () == 1);
+        result = !this->evalPredicate (pred->getChildren ()->front ());
+        TRACE ("not -> %s", strbool (result));
+        return result;
+      }
       break;
     case Predicate::CONJUNCTION:
       {
-- 
2.43.0


From db8a47edd201e0d35aad4abc62166dfd209cbeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 02/27] fix: keep the selection of a switch on pause and resume

The selected component was forgotten on pause, so that the switch could
neither resume nor stop it.
---
 lib/Switch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 1533299..a4eb09e 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -145,7 +145,8 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
               Event *lambda = _selected->getLambda ();
               g_assert_nonnull (lambda);
               lambda->transition (transition);
-              _selected = nullptr;
+              if (transition == Event::STOP || transition == Event::ABORT)
+                _selected = nullptr;
             }
           break;
 
-- 
2.43.0


From 4c40aea6006e77c7adebf5dab99f0e1a064bd168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 03/27] fix: limit percent and pixel values before converting
 them to int

Values that do not fit in an int overflowed before being limited.
---
 lib/aux-ginga.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 263db7e..f9e9712 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -273,18 +273,14 @@ parse_percent (const string &s, int base, int min, int max)
 {
   bool percent;
   double d;
-  int result;
 
   d = xstrtodorpercent (s, &percent);
   if (percent)
-    {
-      result = (int) lround (d * base);
-    }
-  else
-    {
-      result = (int) lround (d);
-    }
-  return (int) CLAMP (result, min, max);
+    d *= base;
+
+  // Limit before converting: large values do not fit in an integer.
+  d = round (d);
+  return (int) CLAMP (d, min, max);
 }
 
 /**
-- 
2.43.0


From a67e18de2debe7e31da70c4572a61de0a0eee7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 04/27] fix: UserData::setData: removing a missing key

erase() must not be given the end iterator.
---
 lib/aux-ginga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index f9e9712..16c28ed 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -785,7 +785,8 @@ UserData::setData (const string &key, void *value, UserDataCleanFunc fn)
     it->second.second (it->second.first);
   if (value == nullptr)
     {
-      _udata.erase (it);
+      if (it != _udata.end ())
+        _udata.erase (it);
       return false;
     }
   else
-- 
2.43.0


From 4a12d1670850328f0821cc32d0736a0e08144394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 05/27] fix: initialise GError pointers passed to GLib

---
 lib/aux-ginga.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 16c28ed..038fa25 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -658,7 +658,7 @@ string
 xpathfromuri (const string &uri)
 {
   string path;
-  GError *err;
+  GError *err = nullptr;
 
   gchar *g_path = g_filename_from_uri (uri.c_str (), nullptr, &err);
   if (g_path == nullptr)
@@ -694,7 +694,7 @@ xurifromsrc (const string &src, const string &basesrc = "")
       else
         abs = xpathbuildabs (basesrc, src);
 
-      GError *err;
+      GError *err = nullptr;
       gchar *g_uri = g_filename_to_uri (abs.c_str (), NULL, &err);
       if (g_uri == nullptr)
         {
-- 
2.43.0


From 94948acd7e6374359ad845ed7dd91177fe849d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 06/27] fix: try_parse_table: empty strings and lone braces or
 quotes

The empty string was indexed, and a lone '{' or quote was accepted.
---
 lib/aux-ginga.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 038fa25..b47070a 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -155,7 +155,7 @@ try_parse_table (const string &s, map<string, string> *result)
   map<string, string> tab;
 
   str = xstrstrip (s);
-  if (str.front () != '{' || str.back () != '}')
+  if (str.length () < 2 || str.front () != '{' || str.back () != '}')
     return false;
 
   str.assign (str.substr (1, str.length () - 2));
@@ -172,8 +172,9 @@ try_parse_table (const string &s, map<string, string> *result)
       key = xstrstrip (*pr_it++);
       val = xstrstrip (*pr_it++);
       g_assert (pr_it == pr.end ());
-      if (unlikely (!((val.front () == '\'' && val.back () == '\'')
-                      || (val.front () == '"' && val.back () == '"'))))
+      if (unlikely (val.length () < 2
+                    || !((val.front () == '\'' && val.back () == '\'')
+                         || (val.front () == '"' && val.back () == '"'))))
         {
           return false;
         }
-- 
2.43.0


From 34bcecb194e2db5c2e15df0231f2d4a4e82bea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 07/27] fix: forget that a context was started from a child

The mark was never cleared, so that a later direct start of the context
did not start its ports.
---
 lib/Context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index c79e503..f95b020 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -254,6 +254,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
 
           // Start all ports in the next tick if not started from port
           evt->getParameter ("fromport", &param_test);
+          evt->setParameter ("fromport", "");
           if (param_test != "")
             break;
           for (auto port : _ports)
@@ -261,7 +262,6 @@ Context::afterTransition (Event *evt, Event::Transition transition)
               if (port->getType () == Event::PRESENTATION)
                 this->addDelayedAction (port, Event::START, "", 0);
             }
-          evt->setParameter ("fromport", "");
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
-- 
2.43.0


From 93e9e2c768e40fa06e0e353975672cc3ab0203a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 08/27] fix: keep focus updates requested while one is carried
 out

The request was dropped when the flag was cleared afterwards.
---
 lib/MediaSettings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index c820fd9..8f11f60 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -58,8 +58,9 @@ MediaSettings::sendTick (Time total, Time diff, Time frame)
 {
   if (_hasNextFocus) // effectuate pending focus index update
     {
-      this->updateCurrentFocus (_nextFocus);
+      string next = _nextFocus;
       _hasNextFocus = false;
+      this->updateCurrentFocus (next);
     }
   Media::sendTick (total, diff, frame);
 }
-- 
2.43.0


From b360e85e987755782a1448a6a33738b91786c3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 09/27] fix: animate each item of bounds, location, size and
 background

The items of the new value were read from past the end of its list, and
an empty old value was animated from black rather than from the current
background.
---
 lib/PlayerAnimator.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index e091e0d..266e058 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -61,7 +61,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 4, 4);
       list_pos = ginga::parse_list (to, ',', 4, 4);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
       this->doSchedule ("width", *pre++, *pos++, dur);
@@ -73,7 +73,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
     }
@@ -83,7 +83,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("width", *pre++, *pos++, dur);
       this->doSchedule ("height", *pre++, *pos++, dur);
     }
@@ -95,10 +95,13 @@ PlayerAnimator::schedule (const string &name, const string &from,
       string pre_r, pre_g, pre_b;
       string pos_r, pos_g, pos_b;
 
-      pre = ginga::parse_color (from);
-      pre_r = xstrbuild ("%d", (int) CLAMP (pre.red * 255, 0, 255));
-      pre_g = xstrbuild ("%d", (int) CLAMP (pre.green * 255, 0, 255));
-      pre_b = xstrbuild ("%d", (int) CLAMP (pre.blue * 255, 0, 255));
+      if (from != "")
+        {
+          pre = ginga::parse_color (from);
+          pre_r = xstrbuild ("%d", (int) CLAMP (pre.red * 255, 0, 255));
+          pre_g = xstrbuild ("%d", (int) CLAMP (pre.green * 255, 0, 255));
+          pre_b = xstrbuild ("%d", (int) CLAMP (pre.blue * 255, 0, 255));
+        }
 
       pos = ginga::parse_color (to);
       pos_r = xstrbuild ("%d", (int) CLAMP (pos.red * 255, 0, 255));
-- 
2.43.0


From 9e8080d3b5427094b02ce28bc34cebdaffd56d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 10/27] fix: finish an animation once its duration has elapsed

---
 lib/PlayerAnimator.cpp | 4 +++-
 lib/PlayerAnimator.h   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 266e058..ba607f3 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -558,6 +558,7 @@ AnimInfo::init (double current, Time time)
   else
     _speed = 0;
   _init = true;
+  _start = time;
   _last_update = time;
 }
 
@@ -575,7 +576,8 @@ AnimInfo::update (Time time)
 
   _last_update = _current_time;
 
-  if (_duration == 0 || (dir > 0 && _current >= _target)
+  if (_duration == 0 || _current_time - _start >= _duration
+      || (dir > 0 && _current >= _target)
       || (dir < 0 && _current <= _target))
     {
       _current = _target;
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index b71cf74..dee38c8 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -50,6 +50,7 @@ private:
   double _current;   // current value
   double _target;    // target value
   Time _duration;    // animation duration
+  Time _start;       // time of the initialization
   Time _last_update; // time of the last update
   double _speed;     // animation speed
   bool _done;        // true if animation is done
-- 
2.43.0


From 1df6d8c7928292c81499e4d7cb1531432b4a939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 11/27] fix: convert negative number strings to the nearest
 unsigned value

---
 lib/aux-ginga.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index b47070a..73a187b 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -361,6 +361,10 @@ _xstrtoull (const string &s, guint64 *ip, guint base)
   if (endptr == c_str)
     return false;
 
+  // g_ascii_strtoull() negates numbers preceded by '-' modulo 2^64.
+  if (g_ascii_strtoll (c_str, NULL, base) < 0)
+    u = 0;
+
   tryset (ip, u);
   return true;
 }
-- 
2.43.0


From 21823d7014bded6bb3a66bf4917e45d400c041fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 12/27] fix: a percent value needs a number before the percent
 sign

---
 lib/aux-ginga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 73a187b..08b719a 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -433,7 +433,7 @@ xstrtodorpercent (const string &s, bool *perc)
 {
   gchar *end;
   gdouble x = g_ascii_strtod (s.c_str (), &end);
-  if (*end == '%')
+  if (end != s.c_str () && *end == '%')
     {
       tryset (perc, true);
       return x / 100.;
-- 
2.43.0


From 6721c92d7b1a00438bb221042e52f406899c4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 13/27] fix: attaching a null value under the key "id"
 dereferenced it (Document::setData)

---
 lib/Document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index b26bf67..5e80c3c 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -574,7 +574,7 @@ Document::getData (const string &key, void **value)
 bool
 Document::setData (const string &key, void *value, UserDataCleanFunc fn)
 {
-  if (key == "id"){
+  if (key == "id" && value != nullptr){
     string *str = (string *) value;
     _id = string(*str);
   }
-- 
2.43.0


From 9f62c5b52e4fee6061f663d9c29b76a0deeae7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 14/27] fix: Player: take bottom percentages relative to the
 screen height

They were taken relative to the height of the player itself, unlike the
percentages in right, top, left, width and height.
---
 lib/Player.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 6280960..599ead4 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -722,8 +722,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       {
         int height = _formatter->getOptionInt ("height");
         _prop.rect.y = height - _prop.rect.height
-                       - ginga::parse_percent (value, _prop.rect.height, 0,
-                                               G_MAXINT);
+                       - ginga::parse_percent (value, height, 0, G_MAXINT);
         _dirty = true;
         break;
       }
-- 
2.43.0


From aa273ce18333a70cde3108a1647328bccc1a1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 15/27] fix: Formatter::start: release the document when it
 cannot be started

---
 lib/Formatter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 8153da2..ab02542 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -160,7 +160,11 @@ Formatter::start (const string &file, string *errmsg)
   evt = root->getLambda ();
   g_assert_nonnull (evt);
   if (_doc->evalAction (evt, Event::START) == 0)
-    return false;
+    {
+      delete _doc;
+      _doc = nullptr;
+      return false;
+    }
 
   // Start settings.
   evt = _doc->getSettings ()->getLambda ();
-- 
2.43.0


From 87aafa6fe07e2a7bf8eeffd25484a313ad29636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 16/27] fix: ParserState::genId: skip identifiers already used
 by the document

A document that uses an identifier of the generated form aborted the
parser, and one that did it after the identifier was generated got two
elements with the same identifier.
---
 lib/Parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ab8d927..1b266b2 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1091,8 +1091,11 @@ ParserElt::setData (const string &key, void *value, UserDataCleanFunc fn)
 string
 ParserState::genId ()
 {
-  string id = xstrbuild ("__unamed-%d__", _genid++);
-  g_assert_false (isInUniqueSet (id));
+  string id;
+  do
+    id = xstrbuild ("__unamed-%d__", _genid++);
+  while (this->isInUniqueSet (id)); // in use by the document itself
+  this->addToUniqueSet (id);
   return id;
 }
 
-- 
2.43.0


From c933dd2c4588acc2d0dfe48705db875e4095445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 17/27] fix: ParserState::resolveInterface: property named like
 the port of another context

A reference to a property of an inner context was refused when another
context of the document had a port with the same name.
---
 lib/Parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 1b266b2..36c4219 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1780,7 +1780,15 @@ ParserState::resolveInterface (Composition *ctx, ParserElt *elt,
             }
 
           if (ctx->getId () != obj->getId ())
-            goto fail;
+            {
+              // Port of another context: interface can only point to a
+              // property of obj.
+              result = obj->getAttributionEvent (iface);
+              if (likely (result != nullptr))
+                goto success;
+              else
+                goto fail;
+            }
 
           return this->resolveInterface (ctx, iface_elt, evt);
         }
-- 
2.43.0


From 998f74cf11741c3259ef58b5c6f01f66e66f434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 18/27] fix: ParserState::pushMedia: redirect every reference
 to the settings object

Only the references at the beginning of the map were redirected, so that
a reference to settings declared later could be left at a media object
that is not in the document (or the map read past its end).
---
 lib/Parser.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 36c4219..428e76d 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3953,15 +3953,14 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
           st->referMapIndex (id, &tmpMedia);
           if (tmpMedia)
             {
-              auto it = st->_referMap.begin ();
-              while ((*it).second == tmpMedia)
+              for (auto &it : st->_referMap)
                 {
-                  st->_referMap[(*it).first] = media;
-                  media->addAlias ((*it).first);
-                  it++;
+                  if (it.second != tmpMedia)
+                    continue;
+                  it.second = media;
+                  media->addAlias (it.first);
                 }
-              if (it != st->_referMap.begin ())
-                delete tmpMedia;
+              delete tmpMedia;
             }
 
           gchar *scheme = g_uri_parse_scheme (src.c_str ());
-- 
2.43.0


From d8ef255dc0c91cd397a8747d85db339c1a852551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:08 +0000
Subject: [PATCH 19/27] fix: ParserState::pushRegion: restate right and bottom
 relative to the screen

The left, top, width and height of a nested region were restated relative to
the screen but its right and bottom were kept relative to the enclosing
region; as they reach the player of the media they were then applied over the
whole screen.
---
 lib/Parser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 428e76d..6b34883 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2916,6 +2916,18 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
   elt->setAttribute ("top", xstrbuild ("%g%%", top));
   elt->setAttribute ("width", xstrbuild ("%g%%", width));
   elt->setAttribute ("height", xstrbuild ("%g%%", height));
+  if (elt->getAttribute ("right", nullptr))
+    {
+      int dist = screen.width - rect.x - rect.width;
+      double right = ((double) dist / screen.width) * 100.;
+      elt->setAttribute ("right", xstrbuild ("%g%%", right));
+    }
+  if (elt->getAttribute ("bottom", nullptr))
+    {
+      int dist = screen.height - rect.y - rect.height;
+      double bottom = ((double) dist / screen.height) * 100.;
+      elt->setAttribute ("bottom", xstrbuild ("%g%%", bottom));
+    }
 
   return true;
 }
-- 
2.43.0


From 0b5992f540ca63b3b66b14870f8b4121d7e76e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:57 +0000
Subject: [PATCH 20/27] fix: ParserState::popNcl: check the reference of a
 media before using it

A media with a descriptor and a reference to a media that does not exist
aborted the parser instead of making the parse fail.
---
 lib/Parser.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 6b34883..ef52ece 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2452,6 +2452,26 @@ borderColor='%s'}",
           string desc_id;
           string refer;
 
+          // Check refer.
+          if (media_elt->getAttribute ("refer", &refer))
+            {
+              ParserElt *refer_elt;
+
+              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
+                                                    { "media" })))
+                {
+                  return st->errEltBadAttribute (media_elt->getNode (),
+                                                 "refer", refer,
+                                                 "no such media object");
+                }
+              if (refer_elt->getAttribute ("refer", nullptr))
+                {
+                  return st->errEltBadAttribute (
+                      media_elt->getNode (), "refer", refer,
+                      "cannot refer to a reference");
+                }
+            }
+
           // Move descriptor attributes.
           if (media_elt->getAttribute ("descriptor", &desc_id))
             {
@@ -2480,26 +2500,6 @@ borderColor='%s'}",
                   media->setProperty (it.first, it.second);
                 }
             }
-
-          // Check refer.
-          if (media_elt->getAttribute ("refer", &refer))
-            {
-              ParserElt *refer_elt;
-
-              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
-                                                    { "media" })))
-                {
-                  return st->errEltBadAttribute (media_elt->getNode (),
-                                                 "refer", refer,
-                                                 "no such media object");
-                }
-              if (refer_elt->getAttribute ("refer", nullptr))
-                {
-                  return st->errEltBadAttribute (
-                      media_elt->getNode (), "refer", refer,
-                      "cannot refer to a reference");
-                }
-            }
         }
     }
 
-- 
2.43.0


From 00ca801a44772d1ad621d5353f2da0731110e293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:43 +0000
Subject: [PATCH 21/27] fix: take a src that is not a valid URI reference as a
 path

xmlBuildURI returns NULL for references such as 'a b.png' or '100%.png';
building a string from it aborted the parser.
---
 lib/Parser.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ef52ece..103689d 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -72,6 +72,27 @@ xmlGetPropAsString (xmlNode *node, const string &name, string *result)
   return true;
 }
 
+/// Resolves \p src against the URI \p base.
+static inline string
+xmlBuildURIAsString (const string &src, const string &base)
+{
+  string result;
+  xmlChar *str = xmlBuildURI (toXmlChar (src), toXmlChar (base));
+  if (str != nullptr)
+    {
+      result = toCPPString (str);
+      xmlFree (str);
+      return result;
+    }
+  // Not a valid URI reference: take it as a path.
+  if (xpathisuri (src) || xpathisabs (src)
+      || g_ascii_strncasecmp (base.c_str (), "file:", 5) != 0)
+    {
+      return src;
+    }
+  return xpathbuild (xpathdirname (xpathfromuri (base)), src);
+}
+
 /// Finds node children by tag.
 static list<xmlNode *>
 xmlFindAllChildren (xmlNode *node, const string &tag)
@@ -3997,14 +4018,11 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
           if (src != "")
             {
               // Makes uri based in the main document uri
-              xmlChar *s = xmlBuildURI (toXmlChar (src),
-                                        toXmlChar (st->getURI ()));
-              src = toCPPString (s);
+              src = xmlBuildURIAsString (src, st->getURI ());
               if (!xpathisuri (src))
                 {
                   src = xurifromsrc (src, "");
                 }
-              xmlFree (s);
             }
           // create Media if not found refer that created the referred Media
           if (!st->referMapIndex (id, &media))
@@ -4240,10 +4258,9 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   // fixme:  We should also handle remote URIs; g_file_move could help us.
   if (st->getURI () != "")
     {
-      xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
-      src = toCPPString (s);
-      xmlFree (s);
-      src = xpathfromuri (src.c_str ());
+      src = xmlBuildURIAsString (src, st->getURI ());
+      if (xpathisuri (src))
+        src = xpathfromuri (src);
     }
   else
     src = xpathmakeabs (src);
-- 
2.43.0


From d9fa06d2bf180f819b6d374b9677c1eda3075ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 22/27] fix: report a font that cannot be loaded

pushFont failed without setting an error (which aborts the parser), aborted
on a src that is not a local file, and read past the end of the font set
when the src is a directory.
---
 lib/Parser.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 103689d..895810d 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4260,22 +4260,37 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
     {
       src = xmlBuildURIAsString (src, st->getURI ());
       if (xpathisuri (src))
-        src = xpathfromuri (src);
+        {
+          gchar *path = g_filename_from_uri (src.c_str (), nullptr, nullptr);
+          if (unlikely (path == nullptr))
+            {
+              return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                             "not a local file");
+            }
+          src = string (path);
+          g_free (path);
+        }
     }
   else
     src = xpathmakeabs (src);
 
   const FcChar8 *fcfilename = (const FcChar8 *) src.c_str ();
+  FcFontSet *fontSet
+      = FcConfigGetFonts (FcConfigGetCurrent (), FcSetApplication);
+  int nfonts = (fontSet != nullptr) ? fontSet->nfont : 0;
   FcBool fontAddStatus = FcConfigAppFontAddFile (NULL, fcfilename);
 
+  // A directory may be added without giving any font.
+  fontSet = FcConfigGetFonts (FcConfigGetCurrent (), FcSetApplication);
+  if (fontSet == nullptr || fontSet->nfont <= nfonts)
+    fontAddStatus = FcFalse;
+
   TRACE ("Adding font family='%s' src='%s' success: %d.", family.c_str (),
          src.c_str (), fontAddStatus);
 
   if (fontAddStatus == FcTrue)
     {
       //  Replaces font metadata with the specifications in the <font> elt.
-      FcFontSet *fontSet
-          = FcConfigGetFonts (FcConfigGetCurrent (), FcSetApplication);
       FcPattern *font = fontSet->fonts[fontSet->nfont - 1];
 
       // family
@@ -4302,7 +4317,13 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
       //      FcPatternPrint (new_font);
     }
 
-  return (fontAddStatus == FcTrue);
+  if (unlikely (fontAddStatus != FcTrue))
+    {
+      return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                     "cannot load font");
+    }
+
+  return true;
 }
 
 // External API.
-- 
2.43.0


From 06c108968e9809a309c7e920d72ae06c277e1ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 23/27] fix: do not take the file name of a streambuf URI that
 has none

The substr call throws when the src of the settings is 'streambuf:'.
---
 lib/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 895810d..2918e5c 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3997,7 +3997,7 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
             }
 
           gchar *scheme = g_uri_parse_scheme (src.c_str ());
-          if (g_strcmp0 (scheme, "streambuf") == 0)
+          if (g_strcmp0 (scheme, "streambuf") == 0 && src.length () >= 12)
             {
               string filename = src.substr (12);
               src = string ("file:/tmp/") + filename + ".mp4";
-- 
2.43.0


From 3d8c644f07a1885f6e628e79362bae8b4b0cf427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 24/27] fix: give each transition attribute its own value

The values passed to xstrbuild all pointed to the same string, so that
every attribute given got the value of the last one read.
---
 lib/Parser.cpp | 43 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 2918e5c..2d48166 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2414,6 +2414,11 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                                                  "no such transition");
                 }
 
+              auto attr = [trans_elt] (const string &name, string value) {
+                trans_elt->getAttribute (name, &value);
+                return value;
+              };
+
               g_assert (trans_elt->getAttribute ("type", &str));
               val = "{type='" + str + "',";
               val += xstrbuild (
@@ -2428,34 +2433,16 @@ horzRepeat='%s',\
 vertRepeat='%s',\
 borderWidth='%s',\
 borderColor='%s'}",
-                  (trans_elt->getAttribute ("subtype", &str)) ? str.c_str ()
-                                                              : "",
-                  +(trans_elt->getAttribute ("dur", &str)) ? str.c_str ()
-                                                           : "0",
-                  +(trans_elt->getAttribute ("startProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("endProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("direction", &str))
-                      ? str.c_str ()
-                      : "forward",
-                  +(trans_elt->getAttribute ("fadeColor", &str))
-                      ? str.c_str ()
-                      : "",
-                  +(trans_elt->getAttribute ("horzRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("vertRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderWidth", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderColor", &str))
-                      ? str.c_str ()
-                      : "");
+                  attr ("subtype", "").c_str (),
+                  attr ("dur", "0").c_str (),
+                  attr ("startProgress", "0").c_str (),
+                  attr ("endProgress", "0").c_str (),
+                  attr ("direction", "forward").c_str (),
+                  attr ("fadeColor", "").c_str (),
+                  attr ("horzRepeat", "0").c_str (),
+                  attr ("vertRepeat", "0").c_str (),
+                  attr ("borderWidth", "0").c_str (),
+                  attr ("borderColor", "").c_str ());
               desc_elt->setAttribute (trans_attr[i], val);
             }
         }
-- 
2.43.0


From e26ff8645f663abdb39ecdded0294c98d2cec552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:55 +0000
Subject: [PATCH 25/27] fix: delete the children of a switch together with it

---
 lib/Switch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index a4eb09e..5a7e9d6 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -31,6 +31,11 @@ Switch::Switch (const string &id) : Composition (id)
 
 Switch::~Switch ()
 {
+  // Delete children.
+  for (auto child : _children)
+    delete child;
+
+  // Delete predicates in rules.
   for (auto item : _rules)
     delete item.second;
 }
-- 
2.43.0


From 0e5da677f2be9e6c2f52718d8a80421f6cabd2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:33 +0000
Subject: [PATCH 26/27] fix: animate the background color through its
 intermediate shades

---
 lib/PlayerAnimator.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index ba607f3..2ecedf8 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -139,6 +139,16 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
   }                                                                        \
   G_STMT_END
 
+// The parts of a color are animated in the range 0-255.
+#define UPDATE_COLOR(info, var)                                            \
+  G_STMT_START                                                             \
+  {                                                                        \
+    double _part = (var) *255.;                                            \
+    UPDATE (info, double, _part, , 0., 255.);                              \
+    var = _part / 255.;                                                    \
+  }                                                                        \
+  G_STMT_END
+
   g_assert_nonnull (rect);
   g_assert_nonnull (bgColor);
   g_assert_nonnull (alpha);
@@ -232,15 +242,15 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
       else if (name == "background:r")
         {
-          UPDATE (info, double, bgColor->red, round, 0., 1.);
+          UPDATE_COLOR (info, bgColor->red);
         }
       else if (name == "background:g")
         {
-          UPDATE (info, double, bgColor->green, round, 0., 1.);
+          UPDATE_COLOR (info, bgColor->green);
         }
       else if (name == "background:b")
         {
-          UPDATE (info, double, bgColor->blue, round, 0., 1.);
+          UPDATE_COLOR (info, bgColor->blue);
         }
       else if (name == "transparency")
         {
-- 
2.43.0


From 1acb489a8d7f0e9044aba2c2bd880cf19da69ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:49 +0000
Subject: [PATCH 27/27] fix: release an animation when it is finished or
 dropped

---
 lib/PlayerAnimator.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 2ecedf8..852f9e2 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -41,6 +41,8 @@ PlayerAnimator::~PlayerAnimator ()
 void
 PlayerAnimator::clear ()
 {
+  for (AnimInfo *info : _scheduled)
+    delete info;
   _scheduled.clear ();
 }
 
@@ -119,9 +121,13 @@ PlayerAnimator::schedule (const string &name, const string &from,
 }
 
 static bool
-isDone (AnimInfo *info)
+releaseIfDone (AnimInfo *info)
 {
-  return info->isDone ();
+  if (!info->isDone ())
+    return false;
+
+  delete info;
+  return true;
 }
 
 void
@@ -263,7 +269,7 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
     }
 
-  _scheduled.remove_if (isDone);
+  _scheduled.remove_if (releaseIfDone);
 }
 
 void
-- 
2.43.0

