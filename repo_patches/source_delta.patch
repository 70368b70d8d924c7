From b1ff2d1eac8361bdd4ede8750e2d0772186395ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 01/51] fix: ignore malformed, multiple and unsatisfiable byte
 ranges instead of failing

A suffix range longer than the payload gave a negative start, several ranges gave a None
Content-Range header, and a malformed Range header raised out of the WSGI application.
---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 34 ++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index de91a39..3f87b34 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -32,6 +32,7 @@
 # Note that VOD_CONF_DIR and CONTENT_ROOT directories must be set in environment
 # For Apache mod_wsgi, this is done using setEnv
 
+import re
 import traceback
 from os.path import splitext
 from urllib.parse import urlparse, parse_qs
@@ -43,6 +44,8 @@ from dashlivesim import SERVER_AGENT
 
 MAX_SESSION_LENGTH = 0  # If non-zero,  limit sessions via redirect
 
+RE_BYTE_RANGE = re.compile(r"^\s*bytes\s*=\s*([0-9]{0,18})\s*-\s*([0-9]{0,18})\s*$", re.IGNORECASE)
+
 # Helper for HTTP responses
 # pylint: disable=dangerous-default-value
 
@@ -242,29 +245,26 @@ def get_mime_type(ext):
 def handle_byte_range(payload, range_line):
     """Handle byte range and return data and range-header value.
     If range is strange, return empty string."""
-    range_parts = range_line.split("=")[-1]
-    ranges = range_parts.split(",")
-    if len(ranges) > 1:
-        return (payload, None)
+    match_obj = RE_BYTE_RANGE.match(range_line)
+    if not match_obj:  # Malformed, not in bytes, or more than one range
+        return (payload, "")
     length = len(payload)
-    range_interval = ranges[0]
-    range_start, range_end = range_interval.split("-")
-    bad_range = False
-    if range_start == "" and range_end != "":
+    range_start, range_end = match_obj.groups()
+    if range_start == "":
+        if range_end == "":
+            return (payload, "")
         # This is the rangeStart lasts bytes
-        range_start = length - int(range_end)
+        range_start = max(length - int(range_end), 0)
         range_end = length - 1
-    elif range_start != "":
+    else:
         range_start = int(range_start)
-        if range_end != "":
-            range_end = min(int(range_end), length-1)
+        if range_end == "":
+            range_end = length - 1
+        elif int(range_end) < range_start:
+            return (payload, "")
         else:
-            range_end = length-1
-    else:
-        bad_range = True
+            range_end = min(int(range_end), length-1)
     if range_end < range_start:
-        bad_range = True
-    if bad_range:
         return (payload, "")
     ranged_payload = payload[range_start: range_end+1]
     range_response = "bytes %d-%d/%d" % (range_start, range_end, len(payload))
-- 
2.43.0


From ab719917e9aa8c784ecee18d75bb5652de42d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 02/51] fix: do not share reply headers between requests

The mutable default of start_reply let one request's Content-Length overwrite another's.
---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 3f87b34..9cca34a 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -47,7 +47,6 @@ MAX_SESSION_LENGTH = 0  # If non-zero,  limit sessions via redirect
 RE_BYTE_RANGE = re.compile(r"^\s*bytes\s*=\s*([0-9]{0,18})\s*-\s*([0-9]{0,18})\s*$", re.IGNORECASE)
 
 # Helper for HTTP responses
-# pylint: disable=dangerous-default-value
 
 status_string = {
     200: 'OK',
@@ -58,10 +57,11 @@ status_string = {
     }
 
 
-def start_reply(status_code, response, length=-1, headers={}):
+def start_reply(status_code, response, length=-1, headers=None):
     "Start reply by writing headers reply."
     status = "%d %s" % (status_code, status_string[status_code])
 
+    headers = {} if headers is None else dict(headers)  # Never shared between requests
     # Add default headers to all requests
     headers['Accept-Ranges'] = 'bytes'
     headers['Pragma'] = 'no-cache'
@@ -82,7 +82,7 @@ def start_reply(status_code, response, length=-1, headers={}):
     response(status, list(headers.items()))
 
 
-def full_reply(status_code, response, body=b"", headers={}):
+def full_reply(status_code, response, body=b"", headers=None):
     "A full reply including body and content-length."
     start_reply(status_code, response, len(body), headers)
     return [body]
-- 
2.43.0


From 8aefb37732418de1bb577938b641bb0c0ff9c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 03/51] fix: thumbnails outside their availability window and
 with timeoffset

The error replies lacked their first argument (a TypeError instead of the reason), and start
number, stop and timeoffset were not treated as for the media segments of the same asset.
---
 dashlivesim/dashlib/dash_proxy.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4b354a0..1beacfe 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -350,13 +350,16 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
+    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
-        return error_response("Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+    stop_number = cfg.stop_number
+    if stop_number and seg_nr >= stop_number:
+        return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
-            return error_response("Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
+            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
@@ -364,14 +367,14 @@ def process_thumbnail(dashProv, now_float):
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
-            return error_response("Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
-        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
+            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
+        if now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s and not stop_number:
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
-            return error_response("Request for %s was %.1fs too late" % (seg_name, diff))
+            return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-    time_since_ast = seg_time - cfg.availability_start_time_in_s
+    media_time = seg_time - cfg.availability_start_time_in_s + cfg.adjusted_pto(0, 1)
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-    nr_loops_done, time_in_loop = divmod(time_since_ast, loop_duration)
+    nr_loops_done, time_in_loop = divmod(media_time, loop_duration)
     seg_nr_in_loop = time_in_loop // seg_dur
     vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
     assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
-- 
2.43.0


From 527326a1851a3e77a442d6765b992cb5a13e4d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 04/51] fix: keep requests inside the content directory

.. and empty path components made segment requests read files outside the asset.
---
 dashlivesim/dashlib/configprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 10353bc..e9b4e46 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -121,9 +121,11 @@ class Config(object):
 
     def update_with_filedata(self, url_parts, url_pos):
         "Find the content_name, file_name, and representations (if muxed as signalled by MUX_DIVIDER)."
+        if '..' in url_parts[url_pos:]:
+            raise ConfigProcessorError("Parent directory not allowed in path")
         self.content_name = url_parts[url_pos]
         self.base_url += "/".join(url_parts[:url_pos+1]) + "/"
-        rel_path_parts = url_parts[url_pos+1:-1]
+        rel_path_parts = [part for part in url_parts[url_pos+1:-1] if part]  # Never an absolute path
         self.rel_path = "/".join(rel_path_parts)
         self.filename = url_parts[-1]
         self.ext = splitext(self.filename)[1]
-- 
2.43.0


From ffd46e28a04b0a1d9ba2bdbb192429c14f81ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 05/51] fix: chunk release times are wall-clock times

With an availabilityStartTime or timeoffset other than 0, the chunks were timed from the media
time and thus delivered without any delay (or far too late).
---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 1beacfe..c5fbad3 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -272,11 +272,11 @@ def process_media_segment(dashProv, now_float, chunk):
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg, trex_data)
-            # Here we shall return seg_time (when the segment start to be produced)
-            # and then each chunk should be delivered at seg_time + (i+1) * chunk_dur
+            # Here we shall return the wall-clock time when the segment starts to be produced
+            # and then each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
-            return ChunkedSegment(seg_time, chunks)
+            return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg)
-- 
2.43.0


From 0628f4fffbd9e6db2eb73c9cffb76d0c901af214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 06/51] fix: keep sample flags, composition offsets, all truns
 and styp/emsg when chunking

Every sample was marked as a sync sample (the flags came as a non-empty string), negative
composition offsets were written as unsigned, samples of a second trun were dropped and so were
the styp (lmsg) and emsg boxes of the segment. A chunk duration below a tick gave an empty chunk.
---
 dashlivesim/dashlib/boxes.py   |  3 +++
 dashlivesim/dashlib/chunker.py | 40 ++++++++++++++++++++++------------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9b30936..a0ea35f 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -968,6 +968,9 @@ class TRUNBox(Box):
         flags = 0x000001 | 0x000100 | 0x000200 | 0x000400
         if self.use_comp_off:
             flags |= 0x000800
+        signed_comp_off = any(sample.offset < 0 for sample in self.samples)
+        if signed_comp_off:
+            flags |= 0x01000000  # Version 1
 
         yield serialize_u32(self.size())
         yield serialize_name(b'trun')
diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 3aa6293..e8e04a0 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -34,6 +34,8 @@ from time import time, sleep
 from dashlivesim.dashlib.mp4 import mp4
 from dashlivesim.dashlib.boxes import create_moof, create_mdat, Sample
 
+NON_SYNC_SAMPLE = 0x00010000  # sample_is_non_sync_sample flag
+
 
 def decode_fragment(data, trex):
     "Extract samples from a segment."
@@ -41,36 +43,43 @@ def decode_fragment(data, trex):
     moof = root.find(b'moof')
     tfhd = moof.find(b'traf.tfhd')
     tfdt = moof.find(b'traf.tfdt')
-    trun = moof.find(b'traf.trun')
 
     base_data_offset = tfhd.base_data_offset if tfhd.has_base_data_offset else moof.offset
-    data_offset = trun.data_offset if trun.has_data_offset else 0
     base_media_decode_time = tfdt.decode_time
 
     t0, t1 = base_media_decode_time, base_media_decode_time
-    begin, end = 0, 0
+    end = base_data_offset
     default_sample_duration = (tfhd.default_sample_duration if tfhd.has_default_sample_duration else
                                trex.default_sample_duration)
     default_sample_size = (tfhd.default_sample_size if tfhd.has_default_sample_size else
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for entry in map(trun.sample_entry, range(trun.sample_count)):
-        duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
-        size = entry['size'] if trun.has_sample_size else default_sample_size
-        flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
-        time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
-        begin, end = end, end + size
-        data = root.fmap[base_data_offset+data_offset:][begin:end]
-        t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags, time_offset)
+    for trun in moof.find_all(b'traf.trun'):
+        if trun.has_data_offset:
+            end = base_data_offset + trun.data_offset
+        for i in range(trun.sample_count):
+            entry = trun.sample_entry(i)
+            duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
+            size = entry['size'] if trun.has_sample_size else default_sample_size
+            if trun.has_sample_flags:
+                flags = int(entry['flags'], 16)
+            elif i == 0 and trun.has_first_sample_flags:
+                flags = trun.first_sample_flags
+            else:
+                flags = default_sample_flags
+            time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
+            begin, end = end, end + size
+            t0, t1 = t1, t1 + duration
+            sync = not flags & NON_SYNC_SAMPLE
+            yield Sample(root.fmap[begin:end], t0, duration, sync, time_offset)
 
 
 def partition(samples, duration):
     d0, d1 = 0, duration
     part = []
     for sample in samples:
-        if d0 >= d1:
+        if part and d0 >= d1:
             d1 += duration
             yield part
             part = []
@@ -98,9 +107,12 @@ def chunk(data, duration, trex_box):
                                track_id,
                                decode_fragment(data, trex_box),
                                duration)
+    # The boxes that apply to the whole segment go first in the first chunk
+    head = b"".join(box.raw_data for box in root.children if box.type in (b'styp', b'emsg'))
     chunks = []
     for moof, mdat in fragments:
-        chunks.append(moof.serialize() + mdat.serialize())
+        chunks.append(head + moof.serialize() + mdat.serialize())
+        head = b""
     return chunks
 
 
-- 
2.43.0


From 8155d51c6c60a226456553bebfef30ce19131276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 07/51] fix: last segment of a modulo session is relative to
 its availability start time

The last segment number was counted from the epoch, so lmsg was never signalled and segments
beyond the end of the session were served.
---
 dashlivesim/dashlib/configprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index e9b4e46..e13d870 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -32,6 +32,7 @@
 
 from os.path import join, splitext
 from collections import namedtuple
+from math import ceil
 import configparser
 
 from dashlivesim.dashlib.moduloperiod import ModuloPeriod
@@ -172,7 +173,8 @@ class Config(object):
         self.availability_start_time_in_s = modulo_period.availability_start_time
         self.media_presentation_duration = modulo_period.media_presentation_duration
         self.availability_end_time = modulo_period.availability_end_time
-        self.last_segment_numbers.append(modulo_period.calc_last_segment_number(seg_dur))
+        # Segment numbers are counted from the availability start time, and the last segment may be partial
+        self.last_segment_numbers.append(int(ceil(modulo_period.media_presentation_duration / seg_dur)) - 1)
 
     def update_with_aet(self, now_int, availability_end_times, media_presentation_durations):
         "Find the proper availabilityEndTime and mediaPresentation duration for now and set in cfg."
-- 
2.43.0


From ea86c1259b7a4cacee83e79da0e3d576b412691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 08/51] fix: several BaseURLs lead to the content again

Empty path components were kept, so the baseurl option was put after the content name.
---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a6bfa36..16b4853 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -173,7 +173,7 @@ class MpdProcessor(object):
                     key, _ = cfg_parts
                     if key == "baseurl":
                         url_parts[i] = ""  # Remove all the baseurl elements
-                url_parts = [p for p in url_parts if p is not None]
+                url_parts = [p for p in url_parts if p]
                 for url in data['urls']:
                     url_parts.insert(-1, "baseurl_" + url)
                     self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts) + "/", ato, atc)
-- 
2.43.0


From 5810119bb4706c7b2f6fe8623ab0fbcd9db31fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 09/51] fix: startrel or stoprel used alone

The MPD request failed unless both were given.
---
 dashlivesim/dashlib/mpdprocessor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 16b4853..a0cef59 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -183,10 +183,13 @@ class MpdProcessor(object):
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
                 pos += 1
         if self.cfg and self.cfg.add_location and self.full_url is not None:
-            loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
-                             self.cfg.start_time, self.full_url)
-            loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
-                             self.cfg.stop_time, loc_url)
+            loc_url = self.full_url
+            if self.cfg.start_time is not None:
+                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
+                                 self.cfg.start_time, loc_url)
+            if self.cfg.stop_time is not None:
+                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
+                                 self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 7f1c943836233027042c281164cbfc2a72a86805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 10/51] fix: a whole number of days is a valid duration

The T designator was written with nothing after it.
---
 dashlivesim/dashlib/timeformatconversions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index e63815c..a59bebe 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -56,12 +56,14 @@ def iso_duration_to_seconds(duration):
 
 def seconds_to_iso_duration(nr_secs):
     "Make interval string in format PT... from time in seconds."
-    days, rest = divmod(nr_secs, 3600*24)
-    hours, rest = divmod(rest, 3600)
-    minutes, seconds = divmod(rest, 60)
+    days, rest = divmod(int(nr_secs), 3600*24)
+    hours, seconds = divmod(rest, 3600)
+    minutes, seconds = divmod(seconds, 60)
     period = "P"
     if days > 0:
         period += "%dD" % days
+    if rest == 0 and days > 0:
+        return period
     period += "T"
     if hours > 0:
         period += "%dH" % hours
-- 
2.43.0


From 4954407bb674158a550e7da7238045dd7be754b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 11/51] fix: same segment numbers in MPD and segment requests
 with snr, timeoffset and start

The start number option was not applied to multi-period MPDs, to $Time$ requests and to the last
segment of limited sessions, and periods were counted from the epoch although Period@start is
relative to availabilityStartTime.
---
 dashlivesim/dashlib/configprocessor.py |  7 ++++++-
 dashlivesim/dashlib/dash_proxy.py      | 14 +++++++-------
 dashlivesim/dashlib/mpd_proxy.py       | 18 ++++++++++++------
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index e13d870..6402751 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -231,9 +231,14 @@ class Config(object):
     def set_timeoffset(self, new_offset):
         self.timeoffset = new_offset
 
+    @property
+    def first_number(self):
+        "The number of the segment at media time 0 (-1 means that it is 1, but absent in the MPD)."
+        return 1 if self.start_nr == -1 else self.start_nr
+
     @property
     def adjusted_start_number(self):
-        start_nr = self.start_nr
+        start_nr = self.first_number
         if self.timeoffset is not None:
             start_nr += ((self.availability_start_time_in_s - self.timeoffset)
                          // self.seg_duration)
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index c5fbad3..4816b4d 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -230,20 +230,20 @@ def process_media_segment(dashProv, now_float, chunk):
     timescale = get_timescale(cfg)
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
-        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale)) + cfg.first_number
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
     if stop_number and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
-    lmsg = seg_nr in cfg.last_segment_numbers
+    lmsg = (seg_nr - seg_start_nr) in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     timescale = 1
     media_time_at_ast = cfg.adjusted_pto(0, timescale)
@@ -347,17 +347,17 @@ def process_thumbnail(dashProv, now_float):
     timescale = get_timescale(cfg)
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
-        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale)) + cfg.first_number
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
     if stop_number and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d9c43e..a0b6e88 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -215,14 +215,18 @@ def generate_period_data(mpd_data, now, cfg):
     if nr_periods_per_hour == -1:  # Just one period starting at at time start relative AST
         start = 0
         start_number = mpd_data['startNumber'] + start // seg_dur
+        if cfg.start_nr == -1 and start_number == 1:
+            start_number = -1  # The default value 1 is not written
         data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': str(start_number),
                 'duration': seg_dur, 'presentationTimeOffset': "%d" % mpd_data['presentationTimeOffset'],
                 'start_s': start}
         period_data.append(data)
     elif nr_periods_per_hour == 0:  # nrPeriodsPerHour == 0, make one old period but starting 1000h after AST
         start = 3600 * 1000
-        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (start // seg_dur),
-                'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
+        start_number = mpd_data['startNumber'] + start // seg_dur
+        presentation_time_offset = mpd_data['presentationTimeOffset'] + start
+        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % start_number,
+                'duration': seg_dur, 'presentationTimeOffset': "%d" % presentation_time_offset, 'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
         period_duration = 3600 // nr_periods_per_hour
@@ -233,15 +237,17 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         # this_period_nr = now // period_duration
-        last_period_nr = (now + half_period_duration) // period_duration
+        # The period starts are relative to the availabilityStartTime, and there is always at least one period
+        now_rel = now - cfg.availability_start_time_in_s
+        last_period_nr = max((now_rel + half_period_duration) // period_duration, 0)
         # this_period_start = this_period_nr * period_duration
-        first_period_nr = (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration
+        first_period_nr = max((now_rel - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration, 0)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
-                    'startNumber': "%d" % (start_time//seg_dur), 'duration': seg_dur,
-                    'presentationTimeOffset': period_nr*period_duration,
+                    'startNumber': "%d" % (mpd_data['startNumber'] + start_time//seg_dur), 'duration': seg_dur,
+                    'presentationTimeOffset': mpd_data['presentationTimeOffset'] + start_time,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
                 # Check whether the early terminated feature is enabled or not.
-- 
2.43.0


From 078fbbb2e7b30654c3a22898abb40abb78f0ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 12/51] fix: SegmentTimeline lists the right segments in every
 situation

Before the first segment was complete the MPD request failed, an empty timeline got startNumber
None or a stale one, windows spanning loop boundaries had too many repeats, a segment ending
exactly at the window start was listed, segments after the end of a limited session were listed,
a static MPD lost its segments as time went by, and timeoffset was not applied unless 0 with stop.
---
 dashlivesim/dashlib/mpdprocessor.py | 23 ++++++++-------
 dashlivesim/dashlib/segtimeline.py  | 44 ++++++++++++++++-------------
 2 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a0cef59..145d8b7 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -279,8 +279,8 @@ class MpdProcessor(object):
             for key in keys:
                 if key in data:
                     if key == "presentationTimeOffset" and str(data[key]) == "0":  # Remove default value
-                        if key in elem:
-                            del elem[key]
+                        if key in elem.attrib:
+                            del elem.attrib[key]
                         continue
                     elem.set(key, str(data[key]))
 
@@ -373,22 +373,25 @@ class MpdProcessor(object):
                         # add SegmentTimeline block in SegmentTemplate with timescale and window.
                         segtime_gen = segtimeline_generators[content_type]
                         now = self.mpd_proc_cfg['now']
+                        if self.cfg.stop_time is not None:
+                            now = min(now, self.cfg.stop_time)  # All of the session is left after its end
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
                         start_time = max(ast + pdata['start_s'], now - tsbd)
+                        use_closest = start_time == ast  # Nothing before the first segment of the session
                         if 'period_duration_s' in pdata:
                             end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
                         else:
                             end_time = now
-                        start_time -= self.cfg.availability_start_time_in_s
-                        end_time -= self.cfg.availability_start_time_in_s
-                        use_closest = False
-                        if self.cfg.stop_time and self.cfg.timeoffset == 0:
-                            start_time = self.cfg.start_time
-                            end_time = min(now, self.cfg.stop_time)
-                            use_closest = True
+                        # Change to media time
+                        media_time_at_ast = self.cfg.adjusted_pto(0, 1)
+                        start_time += media_time_at_ast - ast
+                        end_time += media_time_at_ast - ast
+                        session_end = None
+                        if self.cfg.media_presentation_duration is not None:
+                            session_end = int(self.cfg.media_presentation_duration) + media_time_at_ast
                         seg_timeline = segtime_gen.create_segtimeline(
-                            start_time, end_time, use_closest)
+                            start_time, end_time, use_closest, session_end)
                         remove_attribs(seg_template, ['duration'])
                         seg_template.set('timescale', str(self.cfg.media_data[content_type]['timescale']))
                         if pto != "0" and not offset_at_period_level:
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index cf7640b..79b0207 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -67,21 +67,36 @@ class SegmentTimeLineGenerator(object):
         self.first_segment_number = cfg.vod_first_segment_in_loop
         self.start_number = None
 
-    def create_segtimeline(self, start_time, end_time, use_closest=False):
-        "Create and insert a new <SegmentTimeline> element and S entries."
+    def create_segtimeline(self, start_time, end_time, use_closest=False, session_end=None):
+        """Create and insert a new <SegmentTimeline> element and S entries.
+
+        No segment after session_end is listed. (Real segments may end slightly after their nominal end.)"""
         seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
         seg_timeline.text = "\n"
         seg_timeline.tail = "\n"
 
         start = start_time * self.timescale
         end = end_time * self.timescale
+        if session_end is not None:
+            end = min(end, session_end * self.timescale + self.cfg.seg_duration * self.timescale // 2)
+
+        if use_closest:
+            result = self.find_closest_start(start)
+        else:
+            result = self.find_latest_starting_before(start)
+        (start_index, start_repeats, start_wraps) = result
+        if start_index is None:
+            raise SegmentTimeLineGeneratorError("No start_index for %d %d. Before AST" % (start_time, end_time))
+        start_tics = self.get_seg_starttime(start_wraps, start_index, start_repeats)
+        self.start_number = self.get_seg_number(start_wraps, start_index,
+                                                start_repeats)
 
         # The start segment is the latest one that starts before or at start
         # The end segment is the latest one that ends before or at end.
 
         (end_index, end_repeats, end_wraps) = self.find_latest_starting_before(end)
         if end_index is None:
-            raise SegmentTimeLineGeneratorError("No end_index for %d %d. Before AST" % (start_time, end_time))
+            return seg_timeline  # Before AST. Nothing to list yet
         end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
         # print("end_time %d %d" % (end, end_tics))
 
@@ -96,19 +111,13 @@ class SegmentTimeLineGenerator(object):
                 end_index = len(self.segtimedata) - 1
                 end_repeats = self.segtimedata[end_index].repeats
                 if (end_wraps < 0):
-                    return (None, None, None)
+                    return seg_timeline  # The first segment is not complete
             end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
         # print "end time %d %d %d" % (end_index, end_repeats, end_wraps)
 
-        if use_closest:
-            result = self.find_closest_start(start)
-        else:
-            result = self.find_latest_starting_before(start)
-        (start_index, start_repeats, start_wraps) = result
         # print("start %d %d %d" % (start_index, start_repeats, start_wraps))
-        start_tics = self.get_seg_starttime(start_wraps, start_index, start_repeats)
         start_tics_end = self.get_seg_starttime(end_wraps, end_index, end_repeats)
         if (start_tics_end < start_tics):
             return seg_timeline  # Empty timeline in this case
@@ -119,7 +128,7 @@ class SegmentTimeLineGenerator(object):
         while repeat_index != start_index or nr_wraps != start_wraps:
             seg_data = self.segtimedata[repeat_index]
             # print(repeat_index, start_index, nr_wraps, start_wraps)
-            if repeat_index == end_index:
+            if repeat_index == end_index and nr_wraps == end_wraps:
                 s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
             else:
                 s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
@@ -131,17 +140,12 @@ class SegmentTimeLineGenerator(object):
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-        if start_index != end_index:
+        if start_index != end_index or start_wraps != end_wraps:
             nr_repeats = seg_data.repeats - start_repeats
-        elif len(self.segtimedata) == 1 and end_repeats < start_repeats:
-            nr_repeats = (self.segtimedata[0].repeats + end_repeats -
-                          start_repeats)
         else:  # There was only one entry which was repeated
             nr_repeats = end_repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
         seg_timeline.insert(0, s_elem)
-        self.start_number = self.get_seg_number(nr_wraps, start_index,
-                                                start_repeats)
         return seg_timeline
 
     def get_seg_starttime(self, nr_wraps, index, repeats):
@@ -153,7 +157,7 @@ class SegmentTimeLineGenerator(object):
         "Get the segment number given repeats."
         seg_data = self.segtimedata[index]
         return (nr_wraps*self.nr_segments_per_wrap + seg_data.start_nr +
-                repeats - self.first_segment_number)
+                repeats - self.first_segment_number + self.cfg.first_number)
 
     def get_seg_endtime(self, nr_wraps, index, repeats):
         "Get the end of a segment."
@@ -169,7 +173,7 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         repeats = 0
         accumulated_end_time = seg_data.start_time + seg_data.duration
-        while accumulated_end_time < rel_time:
+        while accumulated_end_time <= rel_time and repeats < seg_data.repeats:
             accumulated_end_time += seg_data.duration
             repeats += 1
         return index, repeats, nr_wraps
@@ -196,7 +200,7 @@ class SegmentTimeLineGenerator(object):
         if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
-        return index, self.segtimedata[index].repeats, nr_wraps
+        return index, 0, nr_wraps
 
     def find_closest_end(self, act_time):
         "Find "
-- 
2.43.0


From 689c0c090d7691a07f646e626d46cc5f4daf3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 13/51] fix: announce only segments that exist in sessions with
 a duration

A duration that is not a multiple of the segment duration was announced unquantized, while the
last partial segment is never available.
---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 6402751..83202f9 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -205,7 +205,7 @@ class Config(object):
                 total_dur += dur
                 end_time = quantize(start_time + total_dur, self.seg_duration)
                 availability_end_times.append(end_time)
-                media_presentation_durations.append(total_dur)
+                media_presentation_durations.append(end_time - self.availability_start_time_in_s)
             last_segment_number = (end_time-self.availability_start_time_in_s)//self.seg_duration - 1
             self.last_segment_numbers.append(last_segment_number)
             self.update_with_aet(now_int, availability_end_times, media_presentation_durations)
-- 
2.43.0


From 617fb8e73cd83b92328489544f3a7b7e13326d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 14/51] fix: read the track timescale of a version 1 mdhd box

---
 dashlivesim/dashlib/initsegmentfilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index cad01e3..c76469a 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -61,7 +61,8 @@ class InitFilter(MP4Filter):
 
     def process_mdhd(self, data):
         "Process mdhd to get track_timscale."
-        self._track_timescale = str_to_uint32(data[20:24])
+        pos = 28 if data[8] == 1 else 20
+        self._track_timescale = str_to_uint32(data[pos:pos+4])
         return data
 
     def process_trex(self, data):
-- 
2.43.0


From 41b45b8e02629a8df2123b8a1659ec94b30943fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 15/51] fix: muxing of segments without styp, with several
 truns, encryption or events, and durations of muxed init

---
 dashlivesim/dashlib/dash_proxy.py   |  2 +-
 dashlivesim/dashlib/segmentmuxer.py | 60 ++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4816b4d..e8a6ab3 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -201,7 +201,7 @@ def process_init_segment(dashProv):
         init1 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[0]['id'], cfg.filename)
         init2 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[1]['id'], cfg.filename)
         muxed_inits = segmentmuxer.MultiplexInits(init1, init2)
-        data = muxed_inits.construct_muxed()
+        data = InitLiveFilter(data=muxed_inits.construct_muxed()).filter()
     else:
         data = error_response(dashProv, "Bad nr of representations: %d" % nr_reps)
     return data
diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index c4bca6d..f07da0c 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -126,14 +126,16 @@ class MediaSegmentStructure(MP4Filter):
 
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
-        self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
-        self.trun_data_offset = None
-        self.trun_data_offset_in_traf = None
+        self.top_level_boxes_to_parse = [b'styp', b'emsg', b'moof', b'mdat']
+        self.trun_data_offsets = []  # Pairs of value and position in traf
+        self.saio_offsets = []  # Triples of value, size and position in traf
         self.traf_start = None
-        self.styp = None
+        self.styp = b""
+        self.emsgs = b""
         self.mfhd = None
         self.traf = None
         self.moof = None
+        self.moof_start = None
         self.mdat = None
 
     def parse_trun(self, data, pos):
@@ -141,8 +143,19 @@ class MediaSegmentStructure(MP4Filter):
         flags = str_to_uint32(data[8:12]) & 0xffffff
         data_offset_present = flags & 1
         if data_offset_present:
-            self.trun_data_offset = str_to_uint32(data[16:20])
-            self.trun_data_offset_in_traf = pos + 16 - self.traf_start
+            self.trun_data_offsets.append((str_to_uint32(data[16:20]), pos + 16 - self.traf_start))
+
+    def parse_saio(self, data, pos):
+        "Parse saio box and find values and positions of the offsets."
+        entry_size = 4 if data[8] == 0 else 8
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        entry_pos = 20 if flags & 1 else 12
+        entry_count = str_to_uint32(data[entry_pos:entry_pos+4])
+        entry_pos += 4
+        for _ in range(entry_count):
+            value = int.from_bytes(data[entry_pos:entry_pos+entry_size], 'big')
+            self.saio_offsets.append((value, entry_size, pos + entry_pos - self.traf_start))
+            entry_pos += entry_size
 
     def filter_box(self, boxtype, data, file_pos, path=b""):
         "Filter box or tree of boxes recursively."
@@ -150,6 +163,7 @@ class MediaSegmentStructure(MP4Filter):
             self.styp = data
         elif boxtype == b"moof":
             self.moof = data
+            self.moof_start = file_pos
         elif boxtype == b"mdat":
             self.mdat = data
         elif boxtype == b"mfhd":
@@ -159,6 +173,10 @@ class MediaSegmentStructure(MP4Filter):
             self.traf_start = file_pos
         elif boxtype == b"trun":
             self.parse_trun(data, file_pos)
+        elif boxtype == b"saio":
+            self.parse_saio(data, file_pos)
+        elif boxtype == b"emsg":
+            self.emsgs += data
         if path == b"":
             path = boxtype
         else:
@@ -200,25 +218,29 @@ class MultiplexMediaSegments(object):
     def mux_on_sample_level(self):
         "Mux media samples into one mdata. This is done by simple concatenation."
 
-        def get_traf_with_mod_offset(mstruct, delta_offset):
-            "Get a traf box but with modified offset."
-            if mstruct.trun_data_offset is None:
-                return mstruct.traf
-            new_data_offset = mstruct.trun_data_offset + delta_offset
+        def get_traf_with_mod_offset(mstruct, delta_offset, traf_pos):
+            "Get a traf box but with modified offsets. traf_pos is its position in the new moof."
             traf = mstruct.traf
-            offset = mstruct.trun_data_offset_in_traf
-            return traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
-
-        delta_offset1 = len(self.mstruct2.traf)
-        delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8
-        traf1 = get_traf_with_mod_offset(self.mstruct1, delta_offset1)
-        traf2 = get_traf_with_mod_offset(self.mstruct2, delta_offset2)
+            for value, offset in mstruct.trun_data_offsets:
+                traf = traf[:offset] + uint32_to_str(value + delta_offset) + traf[offset+4:]
+            saio_delta = traf_pos - (mstruct.traf_start - mstruct.moof_start)
+            for value, size, offset in mstruct.saio_offsets:
+                traf = traf[:offset] + (value + saio_delta).to_bytes(size, 'big') + traf[offset+size:]
+            return traf
+
+        traf1_pos = 8 + len(self.mstruct1.mfhd)
+        traf2_pos = traf1_pos + len(self.mstruct1.traf)
+        moof_size = traf2_pos + len(self.mstruct2.traf)
+        delta_offset1 = moof_size - len(self.mstruct1.moof)
+        delta_offset2 = moof_size - len(self.mstruct2.moof) + len(self.mstruct1.mdat) - 8
+        traf1 = get_traf_with_mod_offset(self.mstruct1, delta_offset1, traf1_pos)
+        traf2 = get_traf_with_mod_offset(self.mstruct2, delta_offset2, traf2_pos)
 
-        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
         mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
 
         data = []
         data.append(self.mstruct1.styp)
+        data.append(self.mstruct1.emsgs + self.mstruct2.emsgs)
         data.append(uint32_to_str(moof_size))
         data.append(b'moof')
         data.append(self.mstruct1.mfhd)
-- 
2.43.0


From 4f33fd1887e9290f8d0fb2d4106ade4f96ff8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 16/51] fix: SCTE-35 splice times follow the media timeline,
 and do not need a styp box

---
 dashlivesim/dashlib/dash_proxy.py         | 13 +++++++------
 dashlivesim/dashlib/mediasegmentfilter.py | 12 ++++++++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index e8a6ab3..d3bcc8a 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -271,7 +271,7 @@ def process_media_segment(dashProv, now_float, chunk):
         if chunk:
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg, trex_data)
+                                               offset_at_loop_start, lmsg, seg_time, trex_data)
             # Here we shall return the wall-clock time when the segment starts to be produced
             # and then each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
@@ -279,16 +279,16 @@ def process_media_segment(dashProv, now_float, chunk):
             return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg)
+                                               offset_at_loop_start, lmsg, seg_time)
     else:
         rel_path_parts = rel_path.split("/")
         common_path_parts = rel_path_parts[:-1]
         rel_path1 = "/".join(common_path_parts + [cfg.reps[0]['id']])
         rel_path2 = "/".join(common_path_parts + [cfg.reps[1]['id']])
         seg1 = filter_media_segment(dashProv, cfg.reps[0], rel_path1, vod_nr, seg_nr, seg_ext,
-                                    offset_at_loop_start, lmsg)
+                                    offset_at_loop_start, lmsg, seg_time)
         seg2 = filter_media_segment(dashProv, cfg.reps[1], rel_path2, vod_nr, seg_nr, seg_ext,
-                                    offset_at_loop_start, lmsg)
+                                    offset_at_loop_start, lmsg, seg_time)
         muxed = segmentmuxer.MultiplexMediaSegments(data1=seg1, data2=seg2)
         seg_content = muxed.mux_on_sample_level()
     return seg_content
@@ -304,7 +304,8 @@ def get_trex_data(dashProv, rel_path):
 
 
 # pylint: disable=too-many-arguments
-def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offset_at_loop_start, lmsg, trex_data=None):
+def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offset_at_loop_start, lmsg, seg_time,
+                         trex_data=None):
     "Filter an actual media segment by using time-scale from init segment."
     cfg = dashProv.cfg
     media_seg_file = join(dashProv.content_dir, cfg.content_name, rel_path, "%d%s" % (vod_nr, seg_ext))
@@ -317,7 +318,7 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
                                     is_ttml,
                                     default_sample_duration,
                                     insert_sidx=cfg.insert_sidx, emsg_last_seg=cfg.emsg_last_seg,
-                                    now=dashProv.now)
+                                    now=dashProv.now, seg_starttime=seg_time)
     seg_content = seg_filter.filter()
     dashProv.new_tfdt_value = seg_filter.get_tfdt_value()  # Why set this in dashProv?? TODO
     return seg_content
diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index cb13265..5292ac0 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -52,12 +52,17 @@ class MediaSegmentFilter(MP4Filter):
     # pylint: disable=too-many-instance-attributes, too-many-arguments
     def __init__(self, file_name, seg_nr=None, seg_duration=1, offset=0, lmsg=False, track_timescale=None,
                  scte35_per_minute=0, rel_path=None, is_ttml=False,
-                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False):
+                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False,
+                 seg_starttime=None):
         MP4Filter.__init__(self, file_name)
         self.top_level_boxes_to_parse = [b'styp', b'sidx', b'moof', b'mdat']
         self.composite_boxes_to_parse = [b'moof', b'traf']
         self.seg_nr = seg_nr
         self.seg_duration = seg_duration
+        if seg_starttime is None and seg_nr is not None:
+            seg_starttime = seg_nr*seg_duration
+        self.seg_starttime = seg_starttime  # Media time in seconds
+        self.scte35_inserted = False
         self.offset = offset
         self.track_timescale = track_timescale
         self.rel_path = rel_path
@@ -101,6 +106,8 @@ class MediaSegmentFilter(MP4Filter):
             emsg_box = self.create_emsg()
             self.output = (self.output[:moof_start] + emsg_box +
                            self.output[moof_start:])
+        if not self.scte35_inserted:  # There is no styp box
+            self.output = self.create_scte35box() + self.output
 
     # pylint: disable=no-self-use
 
@@ -125,6 +132,7 @@ class MediaSegmentFilter(MP4Filter):
             output += brand
         scte35box = self.create_scte35box()
         output += scte35box
+        self.scte35_inserted = True
         return output
 
     def process_tfhd(self, data):
@@ -351,7 +359,7 @@ class MediaSegmentFilter(MP4Filter):
         ad_duration = 10
         if self.scte35_per_minute < 1 or self.scte35_per_minute > 8:
             return b""
-        seg_starttime = self.seg_nr*self.seg_duration  # StartTime in seconds
+        seg_starttime = self.seg_starttime  # StartTime in seconds
         sec_modulo_minute = seg_starttime % 60
         minute_start = seg_starttime - sec_modulo_minute
         splice_insert_times = [minute_start + 10]
-- 
2.43.0


From 7e8aa6e22dd8ad1cefe2e63ec1d059c185c6d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 17/51] fix: say that a file extension is not supported instead
 of failing internally

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 9cca34a..81a77b2 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -170,6 +170,8 @@ def application(environment, start_response):
                 response = dash_proxy.get_init(dashProv)
             elif ext == ".jpg":
                 response = dash_proxy.get_media(dashProv)
+            else:
+                response = dash_proxy.error_response(dashProv, "Extension %s not supported" % ext)
             if isinstance(response, bytes) or isinstance(response, str) or chunk_out:
                 if isinstance(response, str):
                     response = response.encode('utf-8')
-- 
2.43.0


From 225ddeeff5cd4ae37a68ea359d2107cafc353508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 18/51] fix: find the right Period, and the BaseURL with
 attributes, for xlink

---
 dashlivesim/dashlib/mpd_proxy.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index a0b6e88..6c6e797 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -1,4 +1,4 @@
-from re import findall
+from re import escape, findall, search
 from math import ceil
 from xml.etree import ElementTree as ET
 
@@ -133,11 +133,11 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL>([^"]*)</BaseURL>', response)
+        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response)
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-            start_pos_period = response.find(period_id) - 12
+            start_pos_period = find_period(response, period_id)
             # Find the position in the string file of the period that has be replaced
             end_pos_period = response.find("</Period>", start_pos_period) + 9
             # End position of the corresponding period.
@@ -184,7 +184,9 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Second part of string has the period id.
         start_pos_xmlns = response.find("xmlns=")
         end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
-        start_pos_period = response.find(filename[:-7]) - 12
+        start_pos_period = find_period(response, filename[:-7])
+        if start_pos_period < 0:
+            return {'ok': False, 'pl': "Period %s not available\n" % filename[:-7]}
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
@@ -196,6 +198,12 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
     return response
 
 
+def find_period(response, period_id):
+    "Find the position of the start tag of the Period with the given id. Return -1 if there is none."
+    match_obj = search(r'<Period\s(?:[^>]*\s)?id="%s"' % escape(period_id), response)
+    return match_obj.start() if match_obj else -1
+
+
 def generate_period_data(mpd_data, now, cfg):
     """Generate an array of period data depending on current time (now) and tsbd. 0 gives one period with start=1000h.
 
-- 
2.43.0


From c42a75b9968803716e1a6c1c212b18a092cf11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 19/51] fix: replace BaseURLs of the VoD MPD by the live ones
 including their attributes

---
 dashlivesim/dashlib/mpdprocessor.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 145d8b7..6b9189f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -150,17 +150,13 @@ class MpdProcessor(object):
             if child.tag != add_ns('ProgramInformation'):
                 break
             pos += 1
-        next_child = list(mpd)[pos]
+        for child in children[pos:]:  # The BaseURLs of the VoD MPD are replaced
+            if child.tag == add_ns('BaseURL'):
+                mpd.remove(child)
         set_baseurl = SET_BASEURL
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
-        if next_child.tag == add_ns('BaseURL'):
-            if 'BaseURL' not in data or not set_baseurl:
-                self.root.remove(next_child)
-            else:
-                self.modify_baseurl(next_child, data['BaseURL'])
-                pos += 1
-        elif ('BaseURL' in data) and set_baseurl:
+        if ('BaseURL' in data) and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
@@ -224,10 +220,6 @@ class MpdProcessor(object):
             baseurl_elem.set('availabilityTimeComplete', new_atc)
         mpd.insert(pos, baseurl_elem)
 
-    def modify_baseurl(self, baseurl_elem, new_baseurl):
-        "Modify the text of an existing BaseURL"
-        baseurl_elem.text = new_baseurl
-
     def insert_ato(self, baseurl_elem, new_ato):
         "Add availabilityTimeOffset to BaseURL element"
         baseurl_elem.set('availabilityTimeOffset', new_ato)
-- 
2.43.0


From f5c85867dfae3f51fe3e247b58b023dd9bc229d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 20/51] fix: inserted sidx covers all samples of the segment

---
 dashlivesim/dashlib/dash_proxy.py         | 3 ++-
 dashlivesim/dashlib/mediasegmentfilter.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index d3bcc8a..9f77e7e 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -278,8 +278,9 @@ def process_media_segment(dashProv, now_float, chunk):
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
             return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
+            trex_data = get_trex_data(dashProv, rel_path) if cfg.insert_sidx else None  # Default sample duration
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg, seg_time)
+                                               offset_at_loop_start, lmsg, seg_time, trex_data)
     else:
         rel_path_parts = rel_path.split("/")
         common_path_parts = rel_path_parts[:-1]
diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 5292ac0..aae0826 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -198,7 +198,7 @@ class MediaSegmentFilter(MP4Filter):
                 pos += 4
             if sample_comp_time_present:
                 pos += 4
-        self.duration = duration
+        self.duration = (self.duration or 0) + duration  # There may be several trun boxes
 
         # Modify data_offset
         output = data[:16]
-- 
2.43.0


From fbd3778f904d7a628a2cc677a8362c15e6703325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 21/51] fix: vodanalyzer only considers files with the segment
 name

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 299821b..2948bbf 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -128,7 +128,7 @@ class DashAnalyzer(object):
         "Search the directory for the first and last segment and set firstNumber and lastNumber for this MediaType."
         rep_id = rep_data['id']
         mediaDir, mediaName = os.path.split(rep_data['absMediaPath'])
-        mediaRegexp = mediaName.replace("%d", "(\d+)").replace(".", "\.")
+        mediaRegexp = mediaName.replace("%d", "(\d+)").replace(".", "\.") + "$"
         mediaReg = re.compile(mediaRegexp)
         files = os.listdir(mediaDir)
         numbers = []
-- 
2.43.0


From 5d04023e7d2dd5a0c9bec74e6011d7b0c9ef48a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 22/51] fix: keep first_sample_flags when inserting captions

---
 dashlivesim/cc_inserter/cc_inserter.py  | 5 +++--
 dashlivesim/cc_inserter/mpdprocessor.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index a64f107..e12c16f 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -121,8 +121,9 @@ class CCInsertFilter(MP4Filter):
             self.trun_offset = str_to_uint32(data[16:20])
             output += uint32_to_str(self.trun_offset)
             pos += 4
-        if flags & 0x4:
-            pos += 4  # First sample flags present
+        if flags & 0x4:  # First sample flags present
+            output += data[pos:pos+4]
+            pos += 4
 
         sample_duration_present = flags & 0x100
         sample_size_present = flags & 0x200
diff --git a/dashlivesim/cc_inserter/mpdprocessor.py b/dashlivesim/cc_inserter/mpdprocessor.py
index 8957e8c..95524cb 100644
--- a/dashlivesim/cc_inserter/mpdprocessor.py
+++ b/dashlivesim/cc_inserter/mpdprocessor.py
@@ -99,7 +99,7 @@ class Mpd(MpdElement):
         "Parse the node and its children."
         self.check_and_add_attributes(self.node, ('profiles', 'maxSegmentDuration', 'minBufferTime',
                                                   'type', 'mediaPresentationDuration'))
-        for child in self.node.getchildren():
+        for child in self.node:
             if self.compare_tag(child.tag, 'Period'):
                 period = Period(child)
                 period.parse()
@@ -124,7 +124,7 @@ class Period(MpdElement):
     def parse(self):
         "Parse the node and its children."
         self.check_and_add_attributes(self.node, ('id', 'start'))
-        for child in self.node.getchildren():
+        for child in self.node:
             if self.compare_tag(child.tag, 'AdaptationSet'):
                 adaptation_set = AdaptationSet(child)
                 adaptation_set.parse()
-- 
2.43.0


From ebaf1519b420ac8e64fd661cbb747857ad2bfc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 23/51] fix: make the stpp generator work with Python 3 and
 other track ids and resolutions than the default

---
 .../dashlib/stpp_generator/make_stpp_segments.py   |  4 ++--
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index 1a148b8..c7f9456 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -33,7 +33,7 @@ import os
 from argparse import ArgumentParser
 from jinja2 import Template
 
-from stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
+from dashlivesim.dashlib.stpp_generator.stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
 
 BODY_TEMPLATE = '''
     <div region="r0">
@@ -80,7 +80,7 @@ class SegmentCreator(object):
         # Create init segment
         init_segment_path = os.path.join(self.output_path, "init.mp4")
         with open(init_segment_path, 'wb') as iof:
-            initfilter = StppInitFilter(self.language, self.trackid, self.resolution)
+            initfilter = StppInitFilter(self.language, self.trackid)
             initseg = initfilter.filter()
             iof.write(initseg)
 
diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 26858c9..737ca67 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -35,7 +35,7 @@ from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32, uint64_to_str
 
 
-TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
+TTML_MEDIA_TMPL = b'\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
 \x00\x00\x00\x00\x00\x01\x00\x00\x00Htraf\x00\x00\x00\x18tfhd\x00\x02\x00\x18\x00\x00\x00\x03\x00\x00\x03\xe8\x00\
 \x00\x00\t\x00\x00\x00\x14tfdt\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x14trun\x00\x00\x00\
 \x01\x00\x00\x00\x01\x00\x00\x00h\x00\x00\x00\x08mdat'
@@ -43,7 +43,7 @@ TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`
 TIMESCALE = 1000  # This is the units for tfdt time and durations.
 TRACK_ID = 3
 # The init has sample_time_scale and trackID according to the values above
-TTML_INIT = '\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
+TTML_INIT = b'\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc8\x00\x00\x00\x00\x00\x01\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00@\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\
@@ -146,7 +146,7 @@ class StppMediaFilter(MP4Filter):
 
     def process_tfdt(self, data):
         "Process a tfdt box and set the baseMediaDecodeTime."
-        version = ord(data[8])
+        version = data[8]
         assert version == 1, "Can only handle tfdt version 1 (64-bit tfdt)."
         output = data[:12]
         output += uint64_to_str(self.tfdt_time)
@@ -171,7 +171,7 @@ class StppInitFilter(MP4Filter):
         self.creation_modfication_time = creation_modfication_time  # Measured from 1904-01-01 in seconds
         self.handler_name = hdlr_name
         self.top_level_boxes_to_parse = [b'moov']
-        self.composite_boxes_to_parse = [b'moov', b'trak', b'mdia', b'minf', b'dinf']
+        self.composite_boxes_to_parse = [b'moov', b'mvex', b'trak', b'mdia', b'minf', b'dinf']
 
     def process_mvhd(self, data):
         "Set nextTrackId and time and movie timescale."
@@ -208,6 +208,10 @@ class StppInitFilter(MP4Filter):
         output += data[pos:]
         return output
 
+    def process_trex(self, data):
+        "Set trackID."
+        return data[:12] + uint32_to_str(self.track_id) + data[16:]
+
     def process_mdhd(self, data):
         "Set the timescale for the trak, language and time."
 
@@ -228,7 +232,7 @@ class StppInitFilter(MP4Filter):
         hdlr_name = data[32:-1]  # Actually UTF-8 encoded
         print("Found hdlr %s: %s" % (hdlr, hdlr_name))
         if self.handler_name:
-            output = uint32_to_str(len(self.handler_name) + 33) + data[4:32] + self.handler_name + '\x00'
+            output = uint32_to_str(len(self.handler_name.encode('utf-8')) + 33) + data[4:32] + self.handler_name.encode('utf-8') + b'\x00'
             print("Wrote hdlr %s" % self.handler_name)
         else:
             output = data
-- 
2.43.0


From d1af1254a973b8e3aa0308474b597f477eb7479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 24/51] fix: keep the mediaPresentationDuration until the end
 of a session with durations

---
 dashlivesim/dashlib/configprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 83202f9..77b40b6 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -182,6 +182,7 @@ class Config(object):
         media_presentation_duration = None
         if len(availability_end_times) > 0:
             end_time = availability_end_times[-1]
+            media_presentation_duration = media_presentation_durations[-1]
             for aet, media_pre_dur in zip(availability_end_times[::-1], media_presentation_durations[::-1]):
                 if now_int > aet - 2*self.minimum_update_period_in_s:
                     break
-- 
2.43.0


From f3636bf3a9230ce72237c753e7870265d1ca2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 25/51] fix: declare all namespaces in a remote Period

---
 dashlivesim/dashlib/mpd_proxy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 6c6e797..614b030 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -182,8 +182,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Start manipulating the original period so that it looks like .period in the static xlink file.
         filename = filename.split('+')[1]
         # Second part of string has the period id.
-        start_pos_xmlns = response.find("xmlns=")
-        end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
+        namespaces = ' '.join(findall(r'\bxmlns(?::\w+)?="[^"]*"', search('<MPD[^>]*>', response).group()))
         start_pos_period = find_period(response, filename[:-7])
         if start_pos_period < 0:
             return {'ok': False, 'pl': "Period %s not available\n" % filename[:-7]}
@@ -191,7 +190,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
         original_period = response[start_pos_period:end_pos_period]
-        original_period = original_period.replace('">', '" ' + response[start_pos_xmlns:end_pos_xmlns] + '>', 1)
+        original_period = original_period.replace('">', '" ' + namespaces + '>', 1)
         # xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         # response = xml_intro + original_period
         response = original_period
-- 
2.43.0


From b6008950ee4fb44b86b467f8271177bb10df94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 26/51] fix: do not remove ns0: from the content of the MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 6b9189f..7ef0813 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -37,11 +37,13 @@ import time
 
 from dashlivesim.dashlib.timeformatconversions import make_timestamp
 from dashlivesim.dashlib.segtimeline import SegmentTimeLineGenerator
-from dashlivesim.dashlib.dash_namespace import add_ns
+from dashlivesim.dashlib.dash_namespace import add_ns, DASH_NAMESPACE
 from dashlivesim.dashlib import scte35
 
 SET_BASEURL = True
 
+ElementTree.register_namespace('', DASH_NAMESPACE[1:-1])  # No prefix in the output
+
 UTC_TIMING_NTP_SERVER = '1.de.pool.ntp.org'
 UTC_TIMING_SNTP_SERVER = 'time.kfki.hu'
 UTC_TIMING_HTTP_SERVER = 'http://time.akamai.com/?iso'
@@ -450,12 +452,10 @@ class MpdProcessor(object):
             pos += 1
         return pos
 
-    def get_full_xml(self, clean=True):
+    def get_full_xml(self):
         "Get a string of all XML cleaned (no ns0 namespace)"
         ofh = StringIO()
         self.tree.write(ofh, encoding="unicode")
         value = ofh.getvalue()
-        if clean:
-            value = value.replace("ns0:", "").replace("xmlns:ns0=", "xmlns=")
         xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         return xml_intro + value
-- 
2.43.0


From cd23bfc4f21cade2d6d221f114ae0cd31b5888a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 27/51] fix: announce a splice in a segment lasting into the
 next minute

---
 dashlivesim/dashlib/mediasegmentfilter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index aae0826..4af07a9 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -371,6 +371,7 @@ class MediaSegmentFilter(MP4Filter):
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
+        splice_insert_times.append(minute_start + 70)  # The segment may last into the next minute
         found_splice_time = -1
         splice_time = None
         seg_endtime = seg_starttime + self.seg_duration
-- 
2.43.0


From 4d8bf64b78d414e07197ac39d5cb4928ede5ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 28/51] fix: answer a request whose URL cannot be parsed

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 81a77b2..a866597 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -93,7 +93,11 @@ def application(environment, start_response):
     "WSGI Entrypoint"
 
     hostname = environment['HTTP_HOST']
-    url = urlparse(environment['REQUEST_URI'])
+    try:
+        url = urlparse(environment['REQUEST_URI'])
+    except ValueError as exc:
+        yield from full_reply(404, start_response, ("Request error: %s" % exc).encode('utf-8'))
+        return
     vod_conf_dir = environment['VOD_CONF_DIR']
     content_root = environment['CONTENT_ROOT']
     is_https = environment.get('wsgi.url_scheme', False) and environment['wsgi.url_scheme'] == 'https'
-- 
2.43.0


From 79a4366aff9808922d1d3070edbc1247e3937a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 29/51] fix: vodanalyzer describes only the segments in the
 loop, which all representations have

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 133 ++++++++++++------------
 1 file changed, 65 insertions(+), 68 deletions(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 2948bbf..02c39f3 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -168,78 +168,75 @@ class DashAnalyzer(object):
 
             track_timescale = as_data['track_timescale']
 
-            with open(as_data['datFile'], "wb") as ofh:
-                for (rep_nr, rep_data) in enumerate(as_data['reps']):
-                    rep_id = rep_data['id']
-                    rep_data['endNr'] = None
-                    rep_data['startTick'] = None
-                    rep_data['endTick'] = None
-                    if self.firstSegmentInLoop >= 0:
-                        assert rep_data['firstNumber'] == self.firstSegmentInLoop
-                    else:
-                        self.firstSegmentInLoop = rep_data['firstNumber']
-                    if self.mpdSegStartNr >= 0:
-                        assert adaptation_set.start_number == self.mpdSegStartNr
-                    else:
-                        self.mpdSegStartNr = adaptation_set.start_number
-                    segTicks = self.segDuration*track_timescale
-                    maxDiffInTicks = int(track_timescale*0.1) # Max 100ms
-                    segNr = rep_data['firstNumber']
-                    repeatCount = -1
-                    firstSegmentInRepeat = -1
-                    firstStartTimeInRepeat = -1
-                    lastDuration = 0
-                    while (True):
-                        segmentPath = rep_data['absMediaPath'] % segNr
-                        if not os.path.exists(segmentPath):
-                            if self.verbose:
-                                print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
-                                      rep_id, rep_data['endNr'], rep_data['endTime'],
-                                      rep_data['endTime']-rep_data['startTime']))
-                            break
-                        msf = mediasegmentfilter.MediaSegmentFilter(
-                            segmentPath, default_sample_duration = rep_data[
-                                'default_sample_duration'])
-                        msf.filter()
-                        tfdt = msf.get_tfdt_value()
-                        duration = msf.get_duration()
-                        print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
-                        if duration == lastDuration:
-                            repeatCount += 1
-                        else:
-                            if lastDuration != 0 and rep_nr == 0:
-                                writeSegTiming(ofh, firstSegmentInRepeat,
-                                               firstStartTimeInRepeat,
-                                               lastDuration, repeatCount)
-                            repeatCount = 0
-                            lastDuration = duration
-                            firstSegmentInRepeat = segNr
-                            firstStartTimeInRepeat = tfdt
-                        if rep_data['startTick'] is None:
-                            rep_data['startTick'] = tfdt
-                            rep_data['startTime'] = rep_data['startTick']/float(track_timescale)
-                            print("First %s segment is %d starting at time %.3fs" % (rep_id, segNr,
-                                                                                     rep_data['startTime']))
-                        # Check that there is not too much drift. We want to end with at most maxDiffInTicks
-                        endTick = tfdt + duration
-                        idealTicks = (segNr - rep_data['firstNumber'] + 1)*segTicks + rep_data['startTick']
-                        absDiffInTicks = abs(idealTicks - endTick)
-                        if absDiffInTicks < maxDiffInTicks:
-                            # This is a good wrap point
-                            rep_data['endTick'] = tfdt + duration
-                            rep_data['endTime'] = rep_data['endTick']/float(track_timescale)
-                            rep_data['endNr'] = segNr
-                        else:
-                            raise DashAnalyzerError("Too much drift in the duration of the segments")
-                        segNr += 1
+            as_data['segTimes'] = []
+            for (rep_nr, rep_data) in enumerate(as_data['reps']):
+                rep_id = rep_data['id']
+                rep_data['endNr'] = None
+                rep_data['startTick'] = None
+                rep_data['endTick'] = None
+                if self.firstSegmentInLoop >= 0:
+                    assert rep_data['firstNumber'] == self.firstSegmentInLoop
+                else:
+                    self.firstSegmentInLoop = rep_data['firstNumber']
+                if self.mpdSegStartNr >= 0:
+                    assert adaptation_set.start_number == self.mpdSegStartNr
+                else:
+                    self.mpdSegStartNr = adaptation_set.start_number
+                segTicks = self.segDuration*track_timescale
+                maxDiffInTicks = int(track_timescale*0.1) # Max 100ms
+                segNr = rep_data['firstNumber']
+                while (True):
+                    segmentPath = rep_data['absMediaPath'] % segNr
+                    if not os.path.exists(segmentPath):
                         if self.verbose:
-                            sys.stdout.write(".")
+                            print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
+                                  rep_id, rep_data['endNr'], rep_data['endTime'],
+                                  rep_data['endTime']-rep_data['startTime']))
+                        break
+                    msf = mediasegmentfilter.MediaSegmentFilter(
+                        segmentPath, default_sample_duration = rep_data[
+                            'default_sample_duration'])
+                    msf.filter()
+                    tfdt = msf.get_tfdt_value()
+                    duration = msf.get_duration()
+                    print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
                     if rep_nr == 0:
-                        writeSegTiming(ofh, firstSegmentInRepeat, firstStartTimeInRepeat, duration, repeatCount)
-                        lastGoodSegments.append(rep_data['endNr'])
-                        as_data['totalTicks'] = rep_data['endTick'] - rep_data['startTick']
+                        as_data['segTimes'].append((segNr, tfdt, duration))
+                    if rep_data['startTick'] is None:
+                        rep_data['startTick'] = tfdt
+                        rep_data['startTime'] = rep_data['startTick']/float(track_timescale)
+                        print("First %s segment is %d starting at time %.3fs" % (rep_id, segNr,
+                                                                                 rep_data['startTime']))
+                    # Check that there is not too much drift. We want to end with at most maxDiffInTicks
+                    endTick = tfdt + duration
+                    idealTicks = (segNr - rep_data['firstNumber'] + 1)*segTicks + rep_data['startTick']
+                    absDiffInTicks = abs(idealTicks - endTick)
+                    if absDiffInTicks < maxDiffInTicks:
+                        # This is a good wrap point
+                        rep_data['endTick'] = tfdt + duration
+                        rep_data['endTime'] = rep_data['endTick']/float(track_timescale)
+                        rep_data['endNr'] = segNr
+                    else:
+                        raise DashAnalyzerError("Too much drift in the duration of the segments")
+                    segNr += 1
+                    if self.verbose:
+                        sys.stdout.write(".")
+                lastGoodSegments.append(rep_data['endNr'])
         self.lastSegmentInLoop = min(lastGoodSegments)
         self.nrSegmentsInLoop = self.lastSegmentInLoop-self.firstSegmentInLoop+1
+        for as_data in self.as_data.values():
+            # Only the segments in the loop, which is as long as the shortest representation
+            segTimes = as_data['segTimes'][:self.nrSegmentsInLoop]
+            as_data['totalTicks'] = segTimes[-1][1] + segTimes[-1][2] - segTimes[0][1]
+            with open(as_data['datFile'], "wb") as ofh:
+                first, repeatCount = segTimes[0], 0
+                for segTime in segTimes[1:]:
+                    if segTime[2] == first[2]:
+                        repeatCount += 1
+                    else:
+                        writeSegTiming(ofh, first[0], first[1], first[2], repeatCount)
+                        first, repeatCount = segTime, 0
+                writeSegTiming(ofh, first[0], first[1], first[2], repeatCount)
         self.loopTime = self.nrSegmentsInLoop*self.segDuration
         if self.verbose:
             print("")
-- 
2.43.0


From dc2cfc563e6a0398b2592ec31e8e09145241610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 30/51] fix: insert captions also when sample durations are
 defaults

---
 dashlivesim/cc_inserter/cc_inserter.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index e12c16f..79cf88f 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -95,7 +95,7 @@ def generate_data(scc_data, field=1):
 
 class CCInsertFilter(MP4Filter):
     """CC Insert filter"""
-    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field):
+    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field, default_sample_duration=0):
         MP4Filter.__init__(self, segmentFile)
         self.top_level_boxes_to_parse = [b"styp", b"sidx", b"moof", b"mdat"]
         self.composite_boxes_to_parse = [b"moof", b"traf"]
@@ -103,9 +103,22 @@ class CCInsertFilter(MP4Filter):
         self.time_scale = time_scale
         self.tfdt = tfdt
         self.field = field
+        self.default_sample_duration = default_sample_duration
         self.trun_offset = 0
         self.scc_map = []
 
+    def process_tfhd(self, data):
+        """Process tfhd box to find any default sample duration."""
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        pos = 16
+        if flags & 0x1:  # Base data offset present
+            pos += 8
+        if flags & 0x2:  # Sample description index present
+            pos += 4
+        if flags & 0x8:  # Default sample duration present
+            self.default_sample_duration = str_to_uint32(data[pos:pos+4])
+        return data
+
     def process_trun(self, data):
         """Process trun box."""
         # pylint: disable=too-many-locals,too-many-branches,too-many-statements
@@ -134,7 +147,7 @@ class CCInsertFilter(MP4Filter):
         orig_sample_pos = 0
 
         for i in range(sample_count):
-            duration = 0
+            duration = self.default_sample_duration
             size = 0
             flags = 0
             comp_time = 0
@@ -372,6 +385,7 @@ class CCInserter(object):
                 init_filter = initsegmentfilter.InitFilter(rep_data['absInitPath'])
                 init_filter.filter()
                 rep_data['trackID'] = init_filter.track_id
+                rep_data['default_sample_duration'] = init_filter.default_sample_duration
                 print("%s trackID = %d" % (content_type, rep_data['trackID']))
                 rep_data['relMediaPath'] = rep.get_media_path()
                 rep_data['absMediaPath'] = os.path.join(self.base_path, rep.get_media_path())
@@ -446,7 +460,8 @@ class CCInserter(object):
                                       rep_data['endTime']-rep_data['startTime']))
                             break
                         # print "Parsing segment: " + segment_path
-                        msf = mediasegmentfilter.MediaSegmentFilter(segment_path)
+                        msf = mediasegmentfilter.MediaSegmentFilter(
+                            segment_path, default_sample_duration=rep_data['default_sample_duration'])
                         msf.filter()
                         tfdt = msf.get_tfdt_value()
                         duration = msf.get_duration()
@@ -457,7 +472,8 @@ class CCInserter(object):
                         if len(scc_data_for_segment):
                             # Insert cc data into segment
                             cc_filter = CCInsertFilter(segment_path, scc_data_for_segment, track_timescale,
-                                                       tfdt, self.field)
+                                                       tfdt, self.field,
+                                                       rep_data['default_sample_duration'])
                             output = cc_filter.filter()
 
                             print(os.path.join(self.out_path, "%d.m4s" % seg_nr))
-- 
2.43.0


From cc683860fafde9ec3565d7a0e902bfa948f85097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 31/51] fix: include inserted captions in the size in sidx

---
 dashlivesim/cc_inserter/cc_inserter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 79cf88f..46c6d5e 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -239,6 +239,18 @@ class CCInsertFilter(MP4Filter):
             output += data[offset:]
         return output
 
+    def finalize(self):
+        """Update the size in a sidx box with one reference to the segment including captions."""
+        added_size = len(self.output) - len(self.data)
+        pos = 0
+        for size, boxtype in self.output_top_level_boxes:
+            if boxtype == b"sidx":
+                ref_pos = pos + (32 if self.output[pos+8:pos+9] == b"\x00" else 40)
+                if self.output[ref_pos-2:ref_pos] == b"\x00\x01":
+                    new_ref = uint32_to_str(str_to_uint32(self.output[ref_pos:ref_pos+4]) + added_size)
+                    self.output = self.output[:ref_pos] + new_ref + self.output[ref_pos+4:]
+            pos += size
+
     def get_scc_data(self, start_time, end_time):
         """Return scc data for a specified time period"""
         result = []
-- 
2.43.0


From 1ec1262843a40f5d0b87cce0eb516ebefb0b45a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 32/51] fix: cc_inserter only considers files with the segment
 name, and tells which segments are missing

---
 dashlivesim/cc_inserter/cc_inserter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 46c6d5e..00f68d3 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -321,7 +321,7 @@ def get_segment_range(rep_data):
     "Search the directory for the first and last segment and set firstNumber and lastNumber for this MediaType."
     rep_id = rep_data['id']
     media_dir, media_name = os.path.split(rep_data['absMediaPath'])
-    media_regexp = media_name.replace("%d", r"(\d+)").replace(".", r"\.")
+    media_regexp = media_name.replace("%d", r"(\d+)").replace(".", r"\.") + "$"
     media_reg = re.compile(media_regexp)
     files = os.listdir(media_dir)
     numbers = []
@@ -333,7 +333,7 @@ def get_segment_range(rep_data):
     numbers.sort()
     for i in range(1, len(numbers)):
         if numbers[i] != numbers[i-1] + 1:
-            raise CCInserterError("%s segment missing between %d and %d" % rep_id, numbers[i], numbers[i-1])
+            raise CCInserterError("%s segment missing between %d and %d" % (rep_id, numbers[i-1], numbers[i]))
     print("Found %s segments %d - %d" % (rep_id, numbers[0], numbers[-1]))
     rep_data['firstNumber'] = numbers[0]
     rep_data['lastNumber'] = numbers[-1]
-- 
2.43.0


From ec850614318a4aba9bdf242cb001185e9ec6ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 33/51] fix: cc_inserter processes no more than the maximal
 number of segments

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 00f68d3..fca9f70 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -511,7 +511,7 @@ class CCInserter(object):
                         seg_nr += 1
                         if self.verbose:
                             sys.stdout.write(".")
-                        if seg_nr - rep_data['firstNumber'] > self.max_nr_segments > 0:
+                        if seg_nr - rep_data['firstNumber'] >= self.max_nr_segments > 0:
                             print("Reached max nr segments")
                             break
 
-- 
2.43.0


From bfea0cf85d959df5ba6c5f06167a00f9fa63634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 34/51] fix: thumbnails have the media type image/jpeg

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index a866597..c8e1cac 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -244,6 +244,8 @@ def get_mime_type(ext):
         return "video/iso.segment"
     elif ext == ".mp4":
         return "video/mp4"
+    elif ext == ".jpg":
+        return "image/jpeg"
 
     return "text/plain"
 
-- 
2.43.0


From 3e688d5b4227232a42b92882dc963cde59bda97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 35/51] fix: relate media time and wall-clock in
 ProducerReferenceTime also when the session starts after epoch

---
 dashlivesim/dashlib/mpdprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 7ef0813..f0c353f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -255,7 +255,10 @@ class MpdProcessor(object):
         prt_elem = ElementTree.Element(add_ns('ProducerReferenceTime'))
         prt_elem.set("id", "0")
         prt_elem.set("type", "encoder")
-        prt_elem.set("wallClockTime", "1970-01-01T00:00:00")
+        wall_clock_time = 0  # The time at which the media time is 0
+        if self.cfg is not None:
+            wall_clock_time = self.cfg.availability_start_time_in_s - self.cfg.adjusted_pto(0, 1)
+        prt_elem.set("wallClockTime", make_timestamp(wall_clock_time))
         prt_elem.set("presentationTime", "0")
         utc_elem = self.create_descriptor_elem('UTCTiming', 'urn:mpeg:dash:utc:http-iso:2014',
                                                UTC_TIMING_HTTP_SERVER)
-- 
2.43.0


From aa7f9a13d85f784a0c407b782d3172278a66f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:13 +0000
Subject: [PATCH 36/51] fix: signal an infinite availabilityTimeOffset as INF
 in low-latency MPDs

---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 614b030..2273035 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -100,7 +100,8 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
         if not cfg.availability_time_complete:
             mpd_data['availabilityTimeComplete'] = 'false'
     else:  # Set these values in the ll_data
-        ll_data['availabilityTimeOffset'] = '%f' % in_data['availability_time_offset_in_s']
+        ato = in_data['availability_time_offset_in_s']
+        ll_data['availabilityTimeOffset'] = 'INF' if ato == -1 else '%f' % ato
         ll_data['availabilityTimeComplete'] = 'false'
 
     if cfg.chunk_duration_in_s is not None and cfg.chunk_duration_in_s > 0:
-- 
2.43.0


From 9da14645e61f7d4a0840628735491bd3f0ad5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 37/51] fix: copy the Period for further Periods, also if other
 elements precede it in the VoD MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index f0c353f..79295a6 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -198,7 +198,7 @@ class MpdProcessor(object):
         children = list(mpd)
         for ch_nr in range(pos, len(children)):
             if children[ch_nr].tag == add_ns("Period"):
-                period = list(mpd)[pos]
+                period = children[ch_nr]
                 pos = ch_nr
                 break
         else:
-- 
2.43.0


From 1ebb072e0f5a706a1ac3ebb0ad4d5eefb49956b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 38/51] fix: insert MPD elements in the order required by the
 DASH schema

---
 dashlivesim/dashlib/mpdprocessor.py | 39 ++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 79295a6..38c5404 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -49,6 +49,25 @@ UTC_TIMING_SNTP_SERVER = 'time.kfki.hu'
 UTC_TIMING_HTTP_SERVER = 'http://time.akamai.com/?iso'
 
 
+# Children of MPD, Period and AdaptationSet that come before those inserted here, in the order of the DASH schema
+MPD_CHILDREN = ('ProgramInformation', 'BaseURL', 'Location', 'ServiceDescription', 'InitializationSet', 'Period',
+                'Metrics', 'EssentialProperty', 'SupplementalProperty', 'UTCTiming')
+PERIOD_CHILDREN = ('BaseURL', 'SegmentBase', 'SegmentList', 'SegmentTemplate', 'AssetIdentifier', 'EventStream')
+ADAPTATION_SET_CHILDREN = ('FramePacking', 'AudioChannelConfiguration', 'ContentProtection', 'OutputProtection',
+                           'EssentialProperty', 'SupplementalProperty', 'InbandEventStream', 'Switching',
+                           'RandomAccess', 'GroupLabel', 'Label', 'ProducerReferenceTime')
+
+
+def schema_position(parent, name, order):
+    "Return the position in parent for an inserted element, i.e. after all children that should precede it."
+    preceding = [add_ns(tag) for tag in order[:order.index(name)]]
+    pos = 0
+    for child_pos, child in enumerate(parent, start=1):
+        if child.tag in preceding:
+            pos = child_pos
+    return pos
+
+
 def set_value_from_dict(element, key, data):
     "Set attribute key of element to value data[key], if present."
     if key in data:
@@ -206,7 +225,7 @@ class MpdProcessor(object):
         for i in range(1, len(period_data)):
             new_period = copy.deepcopy(period)
             mpd.insert(pos+i, new_period)
-        self.insert_utc_timings(mpd, pos+len(period_data))
+        self.insert_utc_timings(mpd, schema_position(mpd, 'UTCTiming', MPD_CHILDREN))
         self.update_periods(mpd, period_data, data['periodOffset'] >= 0, ll_data)
 
     def insert_baseurl(self, mpd, pos, new_baseurl, new_ato, new_atc):
@@ -292,7 +311,7 @@ class MpdProcessor(object):
             segmentbase_elem = ElementTree.Element(add_ns('SegmentBase'))
             if presentation_time_offset != 0:
                 segmentbase_elem.set('presentationTimeOffset', str(presentation_time_offset))
-            period.insert(0, segmentbase_elem)
+            period.insert(schema_position(period, 'SegmentBase', PERIOD_CHILDREN), segmentbase_elem)
 
         def create_inband_scte35stream_elem():
             "Create an InbandEventStream element for SCTE-35."
@@ -337,25 +356,27 @@ class MpdProcessor(object):
             if 'mpdCallback' in pdata:
                 # Add the mpdCallback element only if the flag is raised.
                 mpdcallback_elem = create_inline_mpdcallback_elem(BaseURLSegmented)
-                period.insert(0, mpdcallback_elem)
+                period.insert(schema_position(period, 'EventStream', PERIOD_CHILDREN), mpdcallback_elem)
             adaptation_sets = period.findall(add_ns('AdaptationSet'))
             for ad_set in adaptation_sets:
-                ad_pos = 0
                 content_type = ad_set.get('contentType')
                 if self.emsg_last_seg:
                     inband_event_elem = create_inband_stream_elem()
-                    ad_set.insert(0, inband_event_elem)
+                    ad_set.insert(schema_position(ad_set, 'InbandEventStream', ADAPTATION_SET_CHILDREN),
+                                  inband_event_elem)
                 if content_type == 'video' and self.scte35_present:
                     scte35_elem = create_inband_scte35stream_elem()
-                    ad_set.insert(0, scte35_elem)
-                    ad_pos += 1
+                    ad_set.insert(schema_position(ad_set, 'InbandEventStream', ADAPTATION_SET_CHILDREN),
+                                  scte35_elem)
                 if self.continuous and last_period_id != '-1':
                     supplementalprop_elem = self.create_descriptor_elem("SupplementalProperty",
                                                                         "urn:mpeg:dash:period_continuity:2014",
                                                                         last_period_id)
-                    ad_set.insert(ad_pos, supplementalprop_elem)
+                    ad_set.insert(schema_position(ad_set, 'SupplementalProperty', ADAPTATION_SET_CHILDREN),
+                                  supplementalprop_elem)
                 if ll_data:
-                    self.insert_producer_reference(ad_set, ad_pos)
+                    self.insert_producer_reference(ad_set, schema_position(ad_set, 'ProducerReferenceTime',
+                                                                           ADAPTATION_SET_CHILDREN))
                 seg_templates = ad_set.findall(add_ns('SegmentTemplate'))
                 for seg_template in seg_templates:
                     set_attribs(seg_template, segmenttemplate_attribs, pdata)
-- 
2.43.0


From ea5ec2db341f9251c863f41da46dc183b14170a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 39/51] fix: insert at most one AssetIdentifier, and where the
 DASH schema has it

---
 dashlivesim/dashlib/mpd_proxy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 2273035..ed59449 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -306,7 +306,11 @@ def generate_period_data(mpd_data, now, cfg):
 
 
 def insert_asset_identifier(response, start_pos_period):
-    ad_pos = response.find(">", start_pos_period) + 1
+    "Insert an AssetIdentifier (unless there is one already) after BaseURL and SegmentBase, if any, of the Period."
+    if response.find("<AssetIdentifier", start_pos_period, response.find("</Period>", start_pos_period)) >= 0:
+        return response
+    ad_pos = search(r'<Period[^>]*>(\s*<BaseURL[^>]*>[^<]*</BaseURL>)*(\s*<SegmentBase[^>]*/>)?',
+                    response[start_pos_period:]).end() + start_pos_period
     response = response[:ad_pos] + "\n<AssetIdentifier schemeIdUri=\"urn:org:dashif:asset-id:2013\" value=\"md:cid:" \
                                    "EIDR:10.5240%2f0EFB-02CD-126E-8092-1E49-W\"></AssetIdentifier>" + response[ad_pos:]
     return response
-- 
2.43.0


From f7de2413e729c23a1e72834f808a171824e1ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 40/51] fix: read durations with years, months, days and
 fractions of seconds

---
 dashlivesim/dashlib/timeformatconversions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index a59bebe..e704a70 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -32,7 +32,8 @@
 import time
 import re
 
-RE_DURATION = re.compile(r"PT((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)S)?")
+RE_DURATION = re.compile(r"P((?P<years>\d+)Y)?((?P<months>\d+)M)?((?P<days>\d+)D)?"
+                         r"(T((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)(\.\d*)?S)?)?$")
 
 
 class TimeFormatConversionError(Exception):
@@ -45,6 +46,12 @@ def iso_duration_to_seconds(duration):
     if not match_obj:
         raise TimeFormatConversionError("%s does not match a duration" % duration)
     secs = 0
+    if match_obj.group("years"):
+        secs += int(match_obj.group("years"))*365*24*3600
+    if match_obj.group("months"):
+        secs += int(match_obj.group("months"))*30*24*3600
+    if match_obj.group("days"):
+        secs += int(match_obj.group("days"))*24*3600
     if match_obj.group("hours"):
         secs += int(match_obj.group("hours"))*3600
     if match_obj.group("minutes"):
-- 
2.43.0


From ae1e5b5e8d5967be7ed236e4d9485fda74ad6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 41/51] fix: VoD analyzer with special characters in the names
 of media segments

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 02c39f3..b9135ce 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -128,7 +128,7 @@ class DashAnalyzer(object):
         "Search the directory for the first and last segment and set firstNumber and lastNumber for this MediaType."
         rep_id = rep_data['id']
         mediaDir, mediaName = os.path.split(rep_data['absMediaPath'])
-        mediaRegexp = mediaName.replace("%d", "(\d+)").replace(".", "\.") + "$"
+        mediaRegexp = "(\\d+)".join(re.escape(part) for part in mediaName.split("%d")) + "$"
         mediaReg = re.compile(mediaRegexp)
         files = os.listdir(mediaDir)
         numbers = []
-- 
2.43.0


From a80aa9aaae762f0c2a72ce89826c541c83efcceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 42/51] fix: list the segment that is cut by the early end of a
 Period in SegmentTimelines

---
 dashlivesim/dashlib/mpdprocessor.py | 10 +++++++---
 dashlivesim/dashlib/segtimeline.py  | 11 ++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 38c5404..1306d61 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -396,20 +396,24 @@ class MpdProcessor(object):
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
                         start_time = max(ast + pdata['start_s'], now - tsbd)
+                        media_time_at_ast = self.cfg.adjusted_pto(0, 1)
                         use_closest = start_time == ast  # Nothing before the first segment of the session
-                        if 'period_duration_s' in pdata:
+                        period_end = None
+                        if 'etpDuration' in pdata:  # The segment that is cut by the early end is listed as well
+                            period_end = media_time_at_ast + pdata['start_s'] + pdata['etpDuration']
+                            end_time = now
+                        elif 'period_duration_s' in pdata:
                             end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
                         else:
                             end_time = now
                         # Change to media time
-                        media_time_at_ast = self.cfg.adjusted_pto(0, 1)
                         start_time += media_time_at_ast - ast
                         end_time += media_time_at_ast - ast
                         session_end = None
                         if self.cfg.media_presentation_duration is not None:
                             session_end = int(self.cfg.media_presentation_duration) + media_time_at_ast
                         seg_timeline = segtime_gen.create_segtimeline(
-                            start_time, end_time, use_closest, session_end)
+                            start_time, end_time, use_closest, session_end, period_end)
                         remove_attribs(seg_template, ['duration'])
                         seg_template.set('timescale', str(self.cfg.media_data[content_type]['timescale']))
                         if pto != "0" and not offset_at_period_level:
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 79b0207..0fd3ff0 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -67,10 +67,12 @@ class SegmentTimeLineGenerator(object):
         self.first_segment_number = cfg.vod_first_segment_in_loop
         self.start_number = None
 
-    def create_segtimeline(self, start_time, end_time, use_closest=False, session_end=None):
+    def create_segtimeline(self, start_time, end_time, use_closest=False, session_end=None,
+                           period_end=None):
         """Create and insert a new <SegmentTimeline> element and S entries.
 
-        No segment after session_end is listed. (Real segments may end slightly after their nominal end.)"""
+        No segment after session_end is listed. (Real segments may end slightly after their nominal end.)
+        If period_end is given, the last segment is the one that starts before it."""
         seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
         seg_timeline.text = "\n"
         seg_timeline.tail = "\n"
@@ -94,7 +96,10 @@ class SegmentTimeLineGenerator(object):
         # The start segment is the latest one that starts before or at start
         # The end segment is the latest one that ends before or at end.
 
-        (end_index, end_repeats, end_wraps) = self.find_latest_starting_before(end)
+        last_start = end
+        if period_end is not None:
+            last_start = min(end, period_end * self.timescale - 1)
+        (end_index, end_repeats, end_wraps) = self.find_latest_starting_before(last_start)
         if end_index is None:
             return seg_timeline  # Before AST. Nothing to list yet
         end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
-- 
2.43.0


From 09b173c00e808b184d1b0604f04c48e3b5cf4d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 43/51] fix: command line of the chunker reads the init segment
 that chunk() needs

---
 dashlivesim/dashlib/chunker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index e8e04a0..0b000b2 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -135,6 +135,7 @@ def simulate_continuous_production(segment, segment_start, chunk_duration, now_f
 
 if __name__ == '__main__':
     from argparse import ArgumentParser
+    from dashlivesim.dashlib.initsegmentfilter import InitFilter
 
     parser = ArgumentParser(description='Repackage a media segment to chunked '
                                         'segment to stdout')
@@ -145,10 +146,11 @@ if __name__ == '__main__':
 
     args = parser.parse_args()
     duration = args.duration[0]
-    init = open(args.init, 'rb').read()
+    trex_data = InitFilter(args.init)
+    trex_data.filter()
     media = open(args.media, 'rb').read()
 
     with open(args.outfile, 'wb') as ofh:
-        for chunk_data in chunk(media, duration, init_data=init):
+        for chunk_data in chunk(media, duration, trex_data):
             ofh.write(chunk_data)
             ofh.flush()
-- 
2.43.0


From 459893f680df7cff79052bee139a98597b4914b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 44/51] fix: a content box of size below 8 must not make a
 request loop forever

---
 dashlivesim/dashlib/mediasegmentfilter.py | 2 ++
 dashlivesim/dashlib/mp4filter.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 4af07a9..83c51f7 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -399,6 +399,8 @@ class MediaSegmentFilter(MP4Filter):
         while pos < len(data):
             size = str_to_uint32(data[pos:pos+4])
             boxtype = data[pos+4:pos+8]
+            if size < 8:  # Nothing to advance by. Must not loop forever
+                raise ValueError("Box %s has unsupported size %d" % (boxtype, size))
             if boxtype != b'mdat':
                 output += data[pos:pos+size]
             else:
diff --git a/dashlivesim/dashlib/mp4filter.py b/dashlivesim/dashlib/mp4filter.py
index 0b5d17e..762fb34 100644
--- a/dashlivesim/dashlib/mp4filter.py
+++ b/dashlivesim/dashlib/mp4filter.py
@@ -66,6 +66,8 @@ class MP4Filter(object):
         "Check the type of box starting at position pos."
         size = str_to_uint32(data[:4])
         boxtype = data[4:8]
+        if size < 8:  # Nothing to advance by. Must not loop forever
+            raise ValueError("Box %s has unsupported size %d" % (boxtype, size))
         return (size, boxtype)
 
     def filter(self):
-- 
2.43.0


From 16649c4f8b673de5efe4acac43f6c2c9d8e7932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 45/51] fix: SegmentTimeline MPDs of content with only video or
 only audio

---
 dashlivesim/dashlib/mpdprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 1306d61..c7b2443 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -330,6 +330,8 @@ class MpdProcessor(object):
         if self.segtimeline or self.segtimeline_nr:
             segtimeline_generators = {}
             for content_type in ('video', 'audio'):
+                if content_type not in self.cfg.media_data:  # Content with only video or only audio
+                    continue
                 segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
                                                                                 self.cfg)
         periods = mpd.findall(add_ns('Period'))
-- 
2.43.0


From 3cadb1c0efc97723501339e09b9077bdf2daddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 46/51] fix: $Time$ requests for representations in a
 sub-folder of the content

---
 dashlivesim/dashlib/dash_proxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 9f77e7e..ec9e4f4 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -217,7 +217,7 @@ def process_media_segment(dashProv, now_float, chunk):
     def get_timescale(cfg):
         "Get timescale for the current representation."
         timescale = None
-        curr_rep_id = cfg.rel_path
+        curr_rep_id = cfg.rel_path.split("/")[-1]
         for rep in cfg.reps:
             if rep['id'] == curr_rep_id:
                 timescale = rep['timescale']
@@ -335,7 +335,7 @@ def process_thumbnail(dashProv, now_float):
     def get_timescale(cfg):
         "Get timescale for the current representation."
         timescale = None
-        curr_rep_id = cfg.rel_path
+        curr_rep_id = cfg.rel_path.split("/")[-1]
         for rep in cfg.reps:
             if rep['id'] == curr_rep_id:
                 timescale = rep['timescale']
-- 
2.43.0


From 825474210e25903bd686f9d3beaa59115982e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 47/51] fix: accept minimum update period 0 in sessions with a
 start time

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 77b40b6..18c199b 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -224,7 +224,7 @@ class Config(object):
         """The publishTime to be written in the MPD. Changed according to the rules:
             if availabilityStartTimeInS == DEFAULT_AVAILABILITY_STARTTIME_IN_S."""
         if self.availability_start_time_in_s != DEFAULT_AVAILABILITY_STARTTIME_IN_S:
-            publish_time = quantize(now_int, self.minimum_update_period_in_s)
+            publish_time = quantize(now_int, self.minimum_update_period_in_s or 1)  # The period may be 0
         else:
             publish_time = DEFAULT_AVAILABILITY_STARTTIME_IN_S
         self.publish_time = publish_time
-- 
2.43.0


From a434cd62f075e6f37d34cc519630a2eb7f3b5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 48/51] fix: answer requests without a Host header

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index c8e1cac..98d7479 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -92,7 +92,9 @@ def full_reply(status_code, response, body=b"", headers=None):
 def application(environment, start_response):
     "WSGI Entrypoint"
 
-    hostname = environment['HTTP_HOST']
+    hostname = environment.get('HTTP_HOST')
+    if not hostname:  # Not sent by all HTTP/1.0 clients
+        hostname = "%s:%s" % (environment['SERVER_NAME'], environment['SERVER_PORT'])
     try:
         url = urlparse(environment['REQUEST_URI'])
     except ValueError as exc:
-- 
2.43.0


From 2934079fa25d276a98747e3e9ebce7d566dc6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:05 +0000
Subject: [PATCH 49/51] fix: give the time of SegmentTimeline entries that do
 not follow directly on the previous one

---
 dashlivesim/dashlib/segtimeline.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 0fd3ff0..e182516 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -133,15 +133,20 @@ class SegmentTimeLineGenerator(object):
         while repeat_index != start_index or nr_wraps != start_wraps:
             seg_data = self.segtimedata[repeat_index]
             # print(repeat_index, start_index, nr_wraps, start_wraps)
+            seg_start_time = self.get_seg_starttime(nr_wraps, repeat_index, 0)
             if repeat_index == end_index and nr_wraps == end_wraps:
-                s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
+                repeats = end_repeats
             else:
-                s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
-            seg_timeline.insert(0, s_elem)
+                repeats = seg_data.repeats
             repeat_index -= 1
             if repeat_index < 0:
                 nr_wraps -= 1
                 repeat_index = len(self.segtimedata) - 1
+            prev_end_time = self.get_seg_endtime(nr_wraps, repeat_index, self.segtimedata[repeat_index].repeats)
+            if seg_start_time == prev_end_time:
+                seg_start_time = None  # Contiguous, so the start time is given by the previous entry
+            s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, repeats)
+            seg_timeline.insert(0, s_elem)
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-- 
2.43.0


From 74011ad5640090ab8aed8cfc59ad9afae8f499b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:00 +0000
Subject: [PATCH 50/51] fix: list segments of equal length separately in the
 analyzer's timing table when there is a gap between them

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index b9135ce..c846eca 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -231,7 +231,7 @@ class DashAnalyzer(object):
             with open(as_data['datFile'], "wb") as ofh:
                 first, repeatCount = segTimes[0], 0
                 for segTime in segTimes[1:]:
-                    if segTime[2] == first[2]:
+                    if segTime[2] == first[2] and segTime[1] == first[1] + (repeatCount + 1)*first[2]:
                         repeatCount += 1
                     else:
                         writeSegTiming(ofh, first[0], first[1], first[2], repeatCount)
-- 
2.43.0


From 5da04e9fbb64c78e704c200d74d654c0fcf3d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:52 +0000
Subject: [PATCH 51/51] fix: a styp box with a larger size than its segment
 does not make the server loop for billions of brands

---
 dashlivesim/dashlib/mediasegmentfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 83c51f7..e1c7fe7 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -115,7 +115,7 @@ class MediaSegmentFilter(MP4Filter):
         "Process styp and make sure lmsg presence follows the lmsg flag parameter. Add scte35 box if appropriate"
         lmsg = self.lmsg
         output = b""
-        size = str_to_uint32(data[:4])
+        size = len(data)  # The size in the header may be more than there is
         pos = 8
         brands = []
         while pos < size:
-- 
2.43.0

