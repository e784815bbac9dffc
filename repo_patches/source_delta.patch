From edfaed7ea59ea8816370be8b552a14e8cbebce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 01/39] fix: clear the hold state of a switch at the end of
 every press

When the hold period expired exactly at the release of a repeated hold, or when an override consumed the
release, the hold flags stayed set and the next press was swallowed or fired the hold actions.
---
 content/lib/pyswitch/controller/inputs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/controller/inputs.py b/content/lib/pyswitch/controller/inputs.py
index 60ae017..e5d8e98 100755
--- a/content/lib/pyswitch/controller/inputs.py
+++ b/content/lib/pyswitch/controller/inputs.py
@@ -84,8 +84,6 @@ class SwitchController:
                             return
 
                         if self.__hold_was_active:
-                            self.__hold_active = False
-                            self.__hold_was_active = False
                             return
 
                     for action in self.__actions:
@@ -96,9 +94,6 @@ class SwitchController:
                             action.push()
 
                         action.release()
-
-                    self.__hold_active = False
-                    self.__hold_was_active = False
                     
                 if self.override_action:
                     if self.override_action.release():
@@ -106,6 +101,10 @@ class SwitchController:
                 else:
                     release()
 
+                # The press is over in any case: Do not let it influence the next one
+                self.__hold_active = False
+                self.__hold_was_active = False
+
             return
         else:
             if self.__hold_active and self.__check_hold():
-- 
2.43.0


From a90178e8de3da32fa1daacb5ec8b11cfa03e6e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 02/39] fix: let the full pedal position reach the maximum for
 any number of steps

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index eba6f24..5d57dd2 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -41,7 +41,7 @@ class AnalogAction(Updateable):
         if self.__enable_callback:
             self.__enable_callback.action = self
 
-        self.__step_width = int(65536 / num_steps)
+        self.__step_width = 65536 / num_steps
         self.__last_value = -1
         self.__transfer_function = transfer_function
         self.__convert_value = convert_value
-- 
2.43.0


From 1cfeb10330f15f4c5b4e754d4f8ac5c86c586764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 03/39] fix: do not crash on the first pedal position when
 calibrating without a minimum window

---
 content/lib/pyswitch/controller/actions/AnalogAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/AnalogAction.py b/content/lib/pyswitch/controller/actions/AnalogAction.py
index 5d57dd2..43ba3c2 100755
--- a/content/lib/pyswitch/controller/actions/AnalogAction.py
+++ b/content/lib/pyswitch/controller/actions/AnalogAction.py
@@ -94,8 +94,8 @@ class AnalogAction(Updateable):
                         self.__cal_max = value
                         self.__cal_factor = 65536 / (self.__cal_max - self.__cal_min)
 
-                # If the calibration window is too small, we dont send anything
-                if (self.__cal_max - self.__cal_min) < self.__cal_min_window:
+                # If the calibration window is (still) empty or too small, we dont send anything
+                if self.__cal_max == self.__cal_min or (self.__cal_max - self.__cal_min) < self.__cal_min_window:
                     return
                 
                 # Scale the input value up
-- 
2.43.0


From c3c66a407896b24797089f83f774e61e15b8eba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 04/39] fix: do not lose encoder turns starting at position -1

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index f80231b..e62a544 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -47,7 +47,7 @@ class EncoderAction(Updateable):
         self.__max_value = max_value
         self.__step_width = step_width
 
-        self.__last_pos = -1
+        self.__last_pos = None
         self._last_value = -1
         self.__convert_value = convert_value
 
@@ -114,7 +114,7 @@ class EncoderAction(Updateable):
         position = int(position * self.__step_width)
 
         # Initialize
-        if self.__last_pos == -1:
+        if self.__last_pos == None:
             self.__last_pos = position
 
         # Reset preview if the reset mapping had a value change
-- 
2.43.0


From 63604bca249c4799dab123f28c27c539f5754597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 05/39] fix: let encoder turns start from the current parameter
 value

---
 .../kemper/actions/bank_select_encoder.py     |  2 +-
 .../controller/actions/EncoderAction.py       | 27 +++++++++++--------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 92c2daf..7496d39 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -52,7 +52,7 @@ class _BankSelectEncoderAction(EncoderAction):
     def accept(self):
         super().accept()
 
-        if self._last_value == -1:
+        if self._last_value == None:
             return
 
         if not "preselectCallback" in self._appl.shared or not self._appl.shared["preselectCallback"] == self:
diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index e62a544..99b3221 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -48,7 +48,7 @@ class EncoderAction(Updateable):
         self.__step_width = step_width
 
         self.__last_pos = None
-        self._last_value = -1
+        self._last_value = None
         self.__convert_value = convert_value
 
         self.__enable_callback = enable_callback
@@ -129,21 +129,26 @@ class EncoderAction(Updateable):
         if self.__last_pos == position:
             return
 
-        # No value yet
-        if self._get_value() == None:
-            self._set_value(0)
-            
         # Get the delta value
         add_value = position - self.__last_pos
         #add_value = int((position - self.__last_pos) * self.__step_width)
 
         self.__last_pos = position
 
-        # Get value to set
-        if not self.__preselect:
-            v = self._get_value() + add_value
+        # Get the value to start from
+        if self.__preselect_active:
+            start_value = self._last_value
         else:
-            v = self._last_value + add_value
+            start_value = self._get_value()
+
+        # No value yet
+        unknown = (start_value == None)
+        if unknown:
+            self._set_value(0)
+            start_value = 0 if not self.__preselect else -1   # The first preselected step is zero
+
+        # Get value to set
+        v = start_value + add_value
 
         if v < self.__min_value:
             v = self.__min_value
@@ -151,7 +156,7 @@ class EncoderAction(Updateable):
             v = self.__max_value
 
         # If changed, set or preview the value
-        if self._last_value != v:
+        if unknown or start_value != v:
             self._last_value = v
             
             if not self.__preselect:
@@ -183,7 +188,7 @@ class EncoderAction(Updateable):
 
     # Send the last value and reset preview display
     def accept(self):
-        if self._last_value == -1:
+        if self._last_value == None:
             return
         
         if self.__preselect and not self.__preselect_active:
-- 
2.43.0


From 9458bd61c218721aae9d579936868269d8af0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:43 +0000
Subject: [PATCH 06/39] fix: do not crash when the bank encoder is turned
 before the current rig is known

---
 .../lib/pyswitch/clients/kemper/actions/bank_select_encoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
index 7496d39..0757624 100644
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select_encoder.py
@@ -62,6 +62,9 @@ class _BankSelectEncoderAction(EncoderAction):
         self._appl.shared["preselectedBank"] = self._last_value
 
     def _get_value(self):
+        if self._mapping.value == None:
+            return None
+        
         return int(self._mapping.value / NUM_RIGS_PER_BANK)
 
     def _set_value(self, value):
-- 
2.43.0


From 7841cc186ec42ee01be2dc96ea02aa8dc4af21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 07/39] fix: let an encoder button accept one encoder and
 cancel another one

---
 .../lib/pyswitch/clients/local/actions/encoder_button.py  | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/content/lib/pyswitch/clients/local/actions/encoder_button.py b/content/lib/pyswitch/clients/local/actions/encoder_button.py
index 29cf1ca..9eac6fd 100755
--- a/content/lib/pyswitch/clients/local/actions/encoder_button.py
+++ b/content/lib/pyswitch/clients/local/actions/encoder_button.py
@@ -22,16 +22,14 @@ class _EncoderButtonCallback(Callback):
         super().__init__()
         
         self.__encoders = []
-        self.__cancel_mode = False
 
     # cancel_mode tells us what to trigger later on, accept() or cancel().
     def register_encoder(self, encoder, cancel_mode):
-        self.__encoders.append(encoder)
-        self.__cancel_mode = cancel_mode
+        self.__encoders.append((encoder, cancel_mode))
 
     def push(self):
-        for encoder in self.__encoders:
-            if self.__cancel_mode:
+        for encoder, cancel_mode in self.__encoders:
+            if cancel_mode:
                 encoder.cancel()
             else:
                 encoder.accept()
-- 
2.43.0


From 680a19d1dfe3b1e339d8719e5ef6254a8f045fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 08/39] fix: ignore encoder turns made on another page

---
 content/lib/pyswitch/controller/actions/EncoderAction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/actions/EncoderAction.py b/content/lib/pyswitch/controller/actions/EncoderAction.py
index 99b3221..298d86d 100755
--- a/content/lib/pyswitch/controller/actions/EncoderAction.py
+++ b/content/lib/pyswitch/controller/actions/EncoderAction.py
@@ -97,8 +97,9 @@ class EncoderAction(Updateable):
         if self.__preview:
             self.__preview.update()
 
+    # Turns made while the action was disabled (for example on another page) must not have an effect later
     def reset(self):
-        pass
+        self.__last_pos = None
 
     # Override this to scale the incoming mapping values
     def _get_value(self):
-- 
2.43.0


From 7e542e0bc057fd4dba304dc39505c5ac3e49491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 09/39] fix: do not split the messages of a source routed to a
 device and to the application

---
 content/lib/pyswitch/controller/midi.py | 34 +++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/controller/midi.py b/content/lib/pyswitch/controller/midi.py
index 9a36f32..a7d709b 100755
--- a/content/lib/pyswitch/controller/midi.py
+++ b/content/lib/pyswitch/controller/midi.py
@@ -61,6 +61,12 @@ class MidiController:
         self.__routings_to_appl = [x for x in routings if x.target == MidiRouting.APPLICATION]
         self.__routings_external = [x for x in routings if x.source != MidiRouting.APPLICATION and x.target != MidiRouting.APPLICATION]
 
+        # External sources which are also routed to the application: [source, message the application did not get yet]
+        self.__shared_sources = []
+        for r in self.__routings_to_appl:
+            if r.source in [x.source for x in self.__routings_external] and not r.source in [x[0] for x in self.__shared_sources]:
+                self.__shared_sources.append([r.source, None])
+
     def send(self, midi_message):
         # Send to all routings which have APPLICATION as source
         for r in self.__routings_from_appl:    
@@ -72,12 +78,36 @@ class MidiController:
 
         # Process routings targeting APPLICATION
         for r in self.__routings_to_appl:
-            msg = r.source.receive()
+            msg = self.__receive_for_appl(r.source)
 
             if msg:
                 # Return first message for APPLICATION in the queue (next ticks will deliver the next messages)
                 return msg                
     
+    # Returns the next message of the source for the application
+    def __receive_for_appl(self, source):
+        for shared in self.__shared_sources:
+            if shared[0] == source:
+                # Already read by the external routings
+                msg = shared[1]
+                shared[1] = None
+                return msg
+
+        return source.receive()
+
+    # Returns the next message of the source for the external routings
+    def __receive_for_external(self, source):
+        for shared in self.__shared_sources:
+            if shared[0] == source:
+                if shared[1]:
+                    # The application has to get the last message first
+                    return None
+                
+                shared[1] = source.receive()
+                return shared[1]
+
+        return source.receive()
+
     # Process all routings where APPLICATION is not involved (this processes one message of each source every time)
     def __process_external_routings(self):
         routings = self.__routings_external
@@ -93,7 +123,7 @@ class MidiController:
                 continue
 
             sources.append(r.source)
-            results.append(r.source.receive())
+            results.append(self.__receive_for_external(r.source))
             
         # Distribute messages
         for r in routings:
-- 
2.43.0


From 01aa89dfbe3c74e73b08b6ce58c613c8fe9ba47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:28 +0000
Subject: [PATCH 10/39] fix: do not attach listeners to requests which are
 already answered

---
 content/lib/pyswitch/controller/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 7db96cc..4a3c1b0 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -396,7 +396,7 @@ class Client: #(ClientRequestListener):
     #@RuntimeStatistics.measure
     def get_matching_request(self, mapping):
         for request in self.__requests:
-            if request.mapping == mapping:
+            if request.mapping == mapping and not request.finished:
                 return request
             
         return None
-- 
2.43.0


From bd333492cc9cb4a050d3b74908ec34942131a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:35 +0000
Subject: [PATCH 11/39] fix: do not crash with dim factor "on" of bank up/down

---
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index 3f89a38..d890e40 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -121,7 +121,7 @@ class KemperBankChangeCallback(Callback):
 
         if self.__dim_factor_p == "off":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOff", 0.2)
-        elif self.__display_mode == "on":
+        elif self.__dim_factor_p == "on":
             self.__dim_factor = get_option(appl.config, "displayDimFactorOn", 1)
         else:
             self.__dim_factor = self.__dim_factor_p
-- 
2.43.0


From baee080bbc2e9acb230bd3264d08d57e876d8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:11 +0000
Subject: [PATCH 12/39] fix: let a pager select a page with ID 0 directly

---
 content/lib/pyswitch/clients/local/actions/pager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 5548c56..847b01f 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -55,7 +55,7 @@ class PagerAction(Callback, Action):
 
         self.current_page_index = -1
         self.current_page_id = None
-        self.__select_page_index = self._get_page_index(select_page) if select_page else None
+        self.__select_page_index = self._get_page_index(select_page) if select_page is not None else None
 
         self.enable_callback = PagerAction._EnableCallback(self)
 
-- 
2.43.0


From 60899f3d55ff80e037f5b92d34a56bfd8f3eae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 13/39] fix: initialize the parameters of a pager

---
 content/lib/pyswitch/clients/local/actions/pager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index 847b01f..cf80ace 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -95,6 +95,7 @@ class PagerAction(Callback, Action):
     # Must be called before usage
     def init(self, appl, switch):
         Action.init(self, appl, switch)
+        Callback.init(self, appl)
 
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
-- 
2.43.0


From b171e57bfc7850b9580574be2a5ca855c6c06c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 14/39] fix: pass the parameter value to the text callback of a
 preview

---
 content/lib/pyswitch/controller/preview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/controller/preview.py b/content/lib/pyswitch/controller/preview.py
index 465cda6..df0b10e 100644
--- a/content/lib/pyswitch/controller/preview.py
+++ b/content/lib/pyswitch/controller/preview.py
@@ -99,7 +99,7 @@ class ValuePreview:
         val = round(value * 100 / max_value)
 
         if text_callback:
-            text = text_callback(val)
+            text = text_callback(value)
         else:
             prefix = f"{ mapping.name }: " if mapping.name else ""
             text = f"{ prefix }{ str(val) }%"
-- 
2.43.0


From e311d0a45666596e27543db8144f72956281a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 15/39] fix: show empty effect slots as off and evaluate the
 state again when the effect type changes

---
 .../lib/pyswitch/controller/callbacks/effect_enable.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/effect_enable.py b/content/lib/pyswitch/controller/callbacks/effect_enable.py
index 2eba1e8..0bd0c8d 100644
--- a/content/lib/pyswitch/controller/callbacks/effect_enable.py
+++ b/content/lib/pyswitch/controller/callbacks/effect_enable.py
@@ -44,12 +44,22 @@ class EffectEnableCallback(BinaryParameterCallback):
 
         self.__current_kpp_type = self.mapping_fxtype.value
 
+        # Evaluate the state again, it may have been reported before the type
+        super().reset()
+
         # Effect category text
         if self.action.label:
             self.action.label.text = self.get_effect_category_text(self.__effect_category, self.mapping_fxtype.value)
 
         super().update_displays()
 
+    # Empty slots are always off, whatever state is reported for them
+    def evaluate_value(self, value):
+        super().evaluate_value(value)
+
+        if self.__effect_category == self.CATEGORY_NONE:
+            self.action.feedback_state(False)
+
     # Must return the effect category for a mapping value
     def get_effect_category(self, kpp_effect_type):
         pass                                           # pragma: no cover
-- 
2.43.0


From 71f907bb75c64f6681cbc641b94fb7a2d9d3943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 16/39] fix: treat effect type 137 (Dual Chromatic) as pitch
 shifter delay

---
 content/lib/pyswitch/clients/kemper/actions/effect_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_state.py b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
index 8052702..384f589 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_state.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_state.py
@@ -224,9 +224,9 @@ class KemperEffectEnableCallback(EffectEnableCallback):
         elif 129 <= kpp_effect_type <= 132:
             return self.CATEGORY_PITCH
 
-        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 138-140) ---
-        # 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
-        elif 138 <= kpp_effect_type <= 140:
+        # --- Dual / Pitch+Delay hybrids (MSB=1, decoded 137-140) ---
+        # 137=Dual Chromatic, 138=Dual Harmonic, 139=Dual Crystal, 140=Dual Loop Pitch
+        elif 137 <= kpp_effect_type <= 140:
             return self.CATEGORY_DUAL
 
         # --- Delay (MSB=1, decoded 145-166) ---
-- 
2.43.0


From c372b179a6f87ca0619ef8320170591df223a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 17/39] fix: keep the tuner needle inside its display area

---
 content/lib/pyswitch/ui/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 08dfdc6..de5b237 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -290,7 +290,7 @@ class TunerDisplay(DisplayElement):
         def set(self, value):
             value_scaled = value
             if self.__zoom != 1:
-                value_scaled = max(-8192, min(int((value - 8192) * self.__zoom), 8192)) + 8191
+                value_scaled = max(-8191, min(int((value - 8192) * self.__zoom), 8192)) + 8191
 
             self.__marker.x = int(self.bounds.x + (self.bounds.width - self.width) * value_scaled / 16384)
 
-- 
2.43.0


From 54e1313f219a02444f4ae9d1e9b3be693c6208ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:40 +0000
Subject: [PATCH 18/39] fix: show the first deviance received after a reset of
 the tuner display

---
 content/lib/pyswitch/ui/elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index de5b237..305238a 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -368,7 +368,7 @@ class TunerDisplay(DisplayElement):
             self.add(self.deviance)
 
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
 
     # We need access to the client, so we store appl here
     def init(self, ui, appl):
@@ -386,7 +386,7 @@ class TunerDisplay(DisplayElement):
     # Reset the display
     def reset(self):
         self.__last_note = None
-        self.__last_deviance = 8192
+        self.__last_deviance = None
         
         if self.label_note:
             self.label_note.text = "-"
-- 
2.43.0


From c2a987052ced72c33927c59d80b4d898763db09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 19/39] fix: react only on changes of the tuner state, and
 ignore switches pushed before tuner mode

---
 content/lib/pyswitch/clients/kemper/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6737b30..6edc91e 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -172,6 +172,7 @@ class TunerDisplayCallback(Callback):
         self.__splash_default = splash_default
         self.__process_overridden_actions = process_overridden_actions
         self.__pushed_before = False
+        self.__last_state = None
         
         if not self.__splash_tuner:
             self.__splash_tuner = TunerDisplay(
@@ -218,8 +219,16 @@ class TunerDisplayCallback(Callback):
         if mapping != self.__mapping:
             return
         
+        # The state might be reported repeatedly
+        if self.__mapping.value == self.__last_state:
+            return
+        
+        self.__last_state = self.__mapping.value
+
         if self.__mapping.value == 1:
-            # Tuner on
+            # Tuner on. Switches pushed before do not count.
+            self.__pushed_before = False
+
             for input in self.__appl.inputs:
                 if hasattr(input, "pixels"):
                     input.override_action = self
-- 
2.43.0


From 37a6852c9fdfee2d662a9bc0f62fb4751219c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 20/39] fix: redraw all actions when tuner mode ends

---
 content/lib/pyswitch/clients/kemper/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/content/lib/pyswitch/clients/kemper/__init__.py b/content/lib/pyswitch/clients/kemper/__init__.py
index 6edc91e..4a4a035 100755
--- a/content/lib/pyswitch/clients/kemper/__init__.py
+++ b/content/lib/pyswitch/clients/kemper/__init__.py
@@ -244,6 +244,7 @@ class TunerDisplayCallback(Callback):
 
                     for action in input.actions:
                         action.reset()
+                        action.update_displays()
 
     def push(self):
         self.__pushed_before = True
-- 
2.43.0


From fd5b6d8f4dbbdaea875aeb1c5dcf92959519b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:37 +0000
Subject: [PATCH 21/39] fix: determine the text color on rainbow backgrounds
 without crashing

---
 content/lib/pyswitch/ui/elements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/ui/elements.py b/content/lib/pyswitch/ui/elements.py
index 305238a..2dc7855 100755
--- a/content/lib/pyswitch/ui/elements.py
+++ b/content/lib/pyswitch/ui/elements.py
@@ -219,7 +219,9 @@ class DisplayLabel(DisplayElement):
         if not self.back_color:
             return Colors.WHITE
         
-        luminance = self.back_color[0] * 0.2126 + self.back_color[1] * 0.7151 + self.back_color[2] * 0.0721
+        # Multiple background colors: Use the mean luminance
+        colors = self.back_color if isinstance(self.back_color[0], (tuple, list)) else (self.back_color,)
+        luminance = sum([c[0] * 0.2126 + c[1] * 0.7151 + c[2] * 0.0721 for c in colors]) / len(colors)
 
         if luminance < 140:
             return Colors.WHITE
-- 
2.43.0


From 72d9af4209c10ff4345e82fa3021f7e87aa452c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 22/39] fix: let the strobe tuner update all LEDs when it is
 switched on again

---
 content/lib/pyswitch/controller/strobe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/content/lib/pyswitch/controller/strobe.py b/content/lib/pyswitch/controller/strobe.py
index 093250a..50b8337 100755
--- a/content/lib/pyswitch/controller/strobe.py
+++ b/content/lib/pyswitch/controller/strobe.py
@@ -71,6 +71,9 @@ class StrobeController:
                 # Tuner on
                 self.__enabled = True
                 self.__period.reset()
+
+                # The LEDs might have been changed since the last time
+                self.__current_strobe_brightnesses = [None for s in self.__switches]
             else:
                 # Tuner off
                 self.__enabled = False
-- 
2.43.0


From 13a28603e976ebfacf0718f8ee2832f893cda0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:51 +0000
Subject: [PATCH 23/39] fix: show the tempo again after its page has been left

---
 content/lib/pyswitch/clients/kemper/actions/tempo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content/lib/pyswitch/clients/kemper/actions/tempo.py b/content/lib/pyswitch/clients/kemper/actions/tempo.py
index 1cb6e39..533de3e 100755
--- a/content/lib/pyswitch/clients/kemper/actions/tempo.py
+++ b/content/lib/pyswitch/clients/kemper/actions/tempo.py
@@ -105,6 +105,11 @@ class _KemperShowTempoCallback(Callback):
     def release(self):
         pass
 
+    # Forget what has been shown, so everything is redrawn
+    def reset(self):
+        self.__current_value = None
+        self.__last_bpm = None
+
     def update(self):
         super().update()
 
-- 
2.43.0


From 81240a524fd8f59a42c97b9b113b3745382951ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:23 +0000
Subject: [PATCH 24/39] fix: keep the state of switches which do not follow the
 client when they are shown again

---
 content/lib/pyswitch/controller/callbacks/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/controller/callbacks/__init__.py b/content/lib/pyswitch/controller/callbacks/__init__.py
index 9f68186..4ed42f2 100644
--- a/content/lib/pyswitch/controller/callbacks/__init__.py
+++ b/content/lib/pyswitch/controller/callbacks/__init__.py
@@ -250,6 +250,10 @@ class BinaryParameterCallback(Callback):
 
     # Evaluate a new value
     def evaluate_value(self, value):
+        if value == None and (self.__use_internal_state or self.__comparison_mode == self.NO_STATE_CHANGE):
+            # The state does not come from the client, so keep it
+            return
+
         state = False
 
         if value != None:
-- 
2.43.0


From 129c6ebc28c0de615e7998e7c55a7b2b319afc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:36 +0000
Subject: [PATCH 25/39] fix: a hidden effect button does not draw on the page
 shown

---
 content/lib/pyswitch/clients/kemper/actions/effect_button.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/effect_button.py b/content/lib/pyswitch/clients/kemper/actions/effect_button.py
index e996010..b5d7e49 100755
--- a/content/lib/pyswitch/clients/kemper/actions/effect_button.py
+++ b/content/lib/pyswitch/clients/kemper/actions/effect_button.py
@@ -71,7 +71,7 @@ class _KemperEffectButtonCallback(BinaryParameterCallback):
 
         if self.action.state:
             self.action.feedback_state(False)
-            self.update_displays()
+            self.action.update_displays()
 
 
 
-- 
2.43.0


From 80d5f33740ad66b30596a78ff42d5a1729cd2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:24 +0000
Subject: [PATCH 26/39] fix: hidden buttons do not blink on the page shown

---
 content/lib/pyswitch/clients/kemper/actions/bank_select.py  | 2 +-
 content/lib/pyswitch/clients/kemper/actions/bank_up_down.py | 2 +-
 content/lib/pyswitch/clients/kemper/actions/rig_select.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_select.py b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
index c0469df..ebfa2c1 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_select.py
@@ -108,7 +108,7 @@ class KemperBankSelectCallback(Callback):
 
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectedBank"] == self.__bank - 1 and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
-            self.update_displays()
+            self.action.update_displays()
 
     def push(self):
         if self.__mapping.value == None:
diff --git a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
index d890e40..4d17d62 100755
--- a/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
+++ b/content/lib/pyswitch/clients/kemper/actions/bank_up_down.py
@@ -165,7 +165,7 @@ class KemperBankChangeCallback(Callback):
         if self.__preselect and "preselectedBank" in self.__appl.shared and self.__appl.shared["preselectCallback"] == self and self.__preselect_blink_period.exceeded:
             self.__appl.shared["preselectBlinkState"] = not self.__appl.shared["preselectBlinkState"]
             
-            self.update_displays()
+            self.action.update_displays()
 
     def reset(self):
         # TODO this should not be necessary: Normally this just resets the memory, which this class doesnt have.
diff --git a/content/lib/pyswitch/clients/kemper/actions/rig_select.py b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
index 47c9984..9166e98 100755
--- a/content/lib/pyswitch/clients/kemper/actions/rig_select.py
+++ b/content/lib/pyswitch/clients/kemper/actions/rig_select.py
@@ -215,7 +215,7 @@ class _KemperRigSelectCallback(Callback):
     
             if self.__last_blink_state != bs:
                 self.__last_blink_state = bs
-                self.update_displays()
+                self.action.update_displays()
 
 
     def update_displays(self):
-- 
2.43.0


From 6598c87e3d9834a74b372359b53789a73775af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:07 +0000
Subject: [PATCH 27/39] fix: answer all listeners of a parameter which depends
 on another one

---
 content/lib/pyswitch/controller/client.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/content/lib/pyswitch/controller/client.py b/content/lib/pyswitch/controller/client.py
index 4a3c1b0..b7a2551 100755
--- a/content/lib/pyswitch/controller/client.py
+++ b/content/lib/pyswitch/controller/client.py
@@ -237,17 +237,28 @@ class Client: #(ClientRequestListener):
 
     # Listener for dependency mappings
     class _DependencyListener:
-        def __init__(self, client, orig_mapping, listener = None):
+        def __init__(self, client, orig_mapping):
             self.__client = client
             self.__orig_mapping = orig_mapping
             self.__last_value = None
-            self.__listener = listener
+            self.__listeners = []
+
+        # Adds a listener to be informed about the original mapping
+        def add_listener(self, listener):
+            if listener in self.__listeners:
+                return
+            
+            self.__listeners.append(listener)
+
+            # The new listener also needs an answer
+            self.__last_value = None
 
         def parameter_changed(self, mapping):
             if mapping.value != self.__last_value:
                 self.__last_value = mapping.value
 
-                self.__client._register_mapping(self.__orig_mapping, self.__listener, True)           
+                for listener in self.__listeners:
+                    self.__client._register_mapping(self.__orig_mapping, listener, True)           
         
         def request_terminated(self, mapping):
             pass
@@ -317,7 +328,9 @@ class Client: #(ClientRequestListener):
         
         if mapping.depends:
             if not mapping in self.__dependencies:
-                self.__dependencies[mapping] = self._DependencyListener(self, mapping, listener)
+                self.__dependencies[mapping] = self._DependencyListener(self, mapping)
+
+            self.__dependencies[mapping].add_listener(listener)
 
             # Register the dependency rather than the mapping itself
             self._register_mapping(mapping.depends, self.__dependencies[mapping], True)
-- 
2.43.0


From 0b9ca0bf9dc7f2252e8c384ca9898b2ff3f04a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 28/39] fix: parameter up/down kept repeating for ever when its
 action was disabled or overridden while being held

---
 content/lib/pyswitch/clients/local/actions/param_change.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/param_change.py b/content/lib/pyswitch/clients/local/actions/param_change.py
index 2654a69..1987913 100755
--- a/content/lib/pyswitch/clients/local/actions/param_change.py
+++ b/content/lib/pyswitch/clients/local/actions/param_change.py
@@ -100,6 +100,10 @@ class _ParameterChangeCallback(Callback):
         if self.__preview:
             self.__preview.update()
 
+        # If the action is disabled or overridden while being held, the release will not arrive
+        if self.__pushed and (not self.action.enabled or self.action.switch.override_action):
+            self.__pushed = False
+
         if self.__pushed and self.__repeat_period and self.__repeat_period.exceeded:
             self.push()
 
-- 
2.43.0


From 2f3f625985e5d4da07569ebf8878972dd6fe5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:27 +0000
Subject: [PATCH 29/39] fix: browser emulation lost MIDI messages which did not
 fit into the buffer

---
 web/htdocs/python/wrappers/wrap_adafruit_midi.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/wrappers/wrap_adafruit_midi.py b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
index d5c6a66..00b375b 100644
--- a/web/htdocs/python/wrappers/wrap_adafruit_midi.py
+++ b/web/htdocs/python/wrappers/wrap_adafruit_midi.py
@@ -5,15 +5,16 @@ class WrapMidiInput:
         if not "midiWrapper" in externalRefs.to_py() or not externalRefs.midiWrapper:
             return None
         
-        cnt = 0
         buf = []
         while len(externalRefs.midiWrapper.messageQueue) > 0:
-            m = externalRefs.midiWrapper.messageQueue.pop(0)
-            msg = list(m)
+            msg = list(externalRefs.midiWrapper.messageQueue[0])
 
-            if cnt + len(msg) > num_bytes:
+            # Messages which do not fit anymore stay in the queue until the next call
+            if buf and len(buf) + len(msg) > num_bytes:
                 return buf
             
+            externalRefs.midiWrapper.messageQueue.pop(0)
+
             self._monitor(msg)
             buf += msg
 
-- 
2.43.0


From 127ad7da83de849a47fbe555e798e7c55572cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:48 +0000
Subject: [PATCH 30/39] fix: web editor put dictionary keys in single quotes
 into additional quotes

---
 web/htdocs/python/parser/misc/CodeExtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index e88be3f..81252ee 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -97,7 +97,7 @@ class CodeExtractor:
         }
 
         for dict_element in dict_node.elements:
-            key = dict_element.key.value.strip('\"')
+            key = dict_element.key.raw_value if isinstance(dict_element.key, libcst.SimpleString) else dict_element.key.value
             value = self._parse_node(dict_element.value)
             
             new_value["arguments"].append({
-- 
2.43.0


From 623a11d82f46b49bea4e182a56068f3c8f6466ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:48 +0000
Subject: [PATCH 31/39] fix: web editor added imports to the body of a function
 when the file starts with it

---
 .../python/parser/misc/AddImportsTransformer.py     | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddImportsTransformer.py b/web/htdocs/python/parser/misc/AddImportsTransformer.py
index 63d8377..6ec82f9 100644
--- a/web/htdocs/python/parser/misc/AddImportsTransformer.py
+++ b/web/htdocs/python/parser/misc/AddImportsTransformer.py
@@ -4,18 +4,15 @@ class AddImportsTransformer(libcst.CSTTransformer):
     
     def __init__(self, import_paths):
         self.import_paths = import_paths
-        self.__done = False
 
-    def leave_SimpleStatementLine(self, original_node, updated_node):
-        if self.__done:
-            return updated_node
-        
-        self.__done = True
-        
+    # The imports are always added on module level
+    def leave_Module(self, original_node, updated_node):
         new_statements = [
             libcst.parse_statement("from " + definition["importPath"] + " import " + (definition["importName"] if "importName" in definition else definition["name"]) + "\n")
             for definition in self.import_paths
         ]
 
-        return libcst.FlattenSentinel(new_statements + [updated_node])
+        return updated_node.with_changes(
+            body = new_statements + list(updated_node.body)
+        )
         
\ No newline at end of file
-- 
2.43.0


From a17c66418b23ecd00e04d024ec87ee5083ba444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:10 +0000
Subject: [PATCH 32/39] fix: web editor could not save when an empty list is
 assigned to a name

---
 web/htdocs/python/parser/misc/CodeGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index cd737cd..f7f43e3 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -29,7 +29,7 @@ class CodeGenerator:
             
             if "assign" in data and data["assign"]:
                 return self._resolve_assign(
-                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] else None, 
+                    node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] not in (None, "") else None, 
                     data = data
                 )                
             
-- 
2.43.0


From 735fb109830fccb6130cac316cdef46fdcf424ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:10 +0000
Subject: [PATCH 33/39] fix: web editor could not load configurations with
 assignments to tuples, attributes or items

---
 web/htdocs/python/parser/misc/AddAssignmentTransformer.py     | 2 +-
 web/htdocs/python/parser/misc/AssignmentExtractor.py          | 3 +++
 web/htdocs/python/parser/misc/AssignmentNameExtractor.py      | 2 +-
 web/htdocs/python/parser/misc/CodeExtractor.py                | 2 +-
 web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py | 3 ++-
 5 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
index e5cced1..8be9026 100644
--- a/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/AddAssignmentTransformer.py
@@ -34,7 +34,7 @@ class AddAssignmentTransformer(TransformerWithStack):
             assign = updated_node.body[0]
             
             for target in assign.targets:
-                if target.target.value == self.insert_before_assign:                
+                if isinstance(target.target, libcst.Name) and target.target.value == self.insert_before_assign:                
                     return libcst.FlattenSentinel([self._generate_statement(), updated_node])
         else:
             if not self.cst:
diff --git a/web/htdocs/python/parser/misc/AssignmentExtractor.py b/web/htdocs/python/parser/misc/AssignmentExtractor.py
index d191771..61641c3 100644
--- a/web/htdocs/python/parser/misc/AssignmentExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentExtractor.py
@@ -21,6 +21,9 @@ class AssignmentExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
+                if not isinstance(target.target, libcst.Name):
+                    continue
+
                 ret.append({
                     "name": target.target.value,
                     "node": assign.value
diff --git a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
index f4fa4b3..da79258 100644
--- a/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
+++ b/web/htdocs/python/parser/misc/AssignmentNameExtractor.py
@@ -17,7 +17,7 @@ class AssignmentNameExtractor:
             assign = statement.body[0]
 
             for target in assign.targets:
-                if target.target.value.startswith("_"):
+                if not isinstance(target.target, libcst.Name) or target.target.value.startswith("_"):
                     continue
 
                 ret.append(target.target.value)
diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index 81252ee..de61cf2 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -27,7 +27,7 @@ class CodeExtractor:
 
             assign = statement.body[0]
             for target in assign.targets:
-                if target.target.value != assign_name:
+                if not isinstance(target.target, libcst.Name) or target.target.value != assign_name:
                     continue
 
                 ret = self._parse_node(assign.value)
diff --git a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
index b07ff59..d620bd5 100644
--- a/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
+++ b/web/htdocs/python/parser/misc/ReplaceAssignmentTransformer.py
@@ -1,3 +1,4 @@
+import libcst
 from .VisitorsWithStack import TransformerWithStack
 
 class ReplaceAssignmentTransformer(TransformerWithStack):
@@ -12,7 +13,7 @@ class ReplaceAssignmentTransformer(TransformerWithStack):
             return updated_node
         
         for target in updated_node.targets:
-            if target.target.value == self.name:
+            if isinstance(target.target, libcst.Name) and target.target.value == self.name:
                 self.replaced = True
                 return updated_node.with_changes(
                     value = self.node
-- 
2.43.0


From 59c34c76aeb9dea1117c0561c6a4f2060689571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:34 +0000
Subject: [PATCH 34/39] fix: web editor replaced imports of the user by others
 of the same name

---
 .../parser/misc/AddImportsTransformer.py      | 36 +++++++++++++++----
 .../misc/RemoveUnusedImportTransformer.py     |  5 +--
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/web/htdocs/python/parser/misc/AddImportsTransformer.py b/web/htdocs/python/parser/misc/AddImportsTransformer.py
index 6ec82f9..a8bf6c0 100644
--- a/web/htdocs/python/parser/misc/AddImportsTransformer.py
+++ b/web/htdocs/python/parser/misc/AddImportsTransformer.py
@@ -5,14 +5,38 @@ class AddImportsTransformer(libcst.CSTTransformer):
     def __init__(self, import_paths):
         self.import_paths = import_paths
 
-    # The imports are always added on module level
+    # The imports are always added on module level. Names which are already imported keep their import.
     def leave_Module(self, original_node, updated_node):
-        new_statements = [
-            libcst.parse_statement("from " + definition["importPath"] + " import " + (definition["importName"] if "importName" in definition else definition["name"]) + "\n")
-            for definition in self.import_paths
-        ]
+        imported = self._imported_names(updated_node)
+        new_statements = []
+
+        for definition in self.import_paths:
+            name = definition["importName"] if "importName" in definition else definition["name"]
+            if name in imported:
+                continue
+
+            imported.append(name)
+            new_statements.append(
+                libcst.parse_statement("from " + definition["importPath"] + " import " + name + "\n")
+            )
 
         return updated_node.with_changes(
             body = new_statements + list(updated_node.body)
         )
-        
\ No newline at end of file
+
+    # Names imported on module level
+    def _imported_names(self, module):
+        ret = []
+
+        for statement in module.body:
+            if not isinstance(statement, libcst.SimpleStatementLine):
+                continue
+
+            for node in statement.body:
+                if not isinstance(node, (libcst.Import, libcst.ImportFrom)) or isinstance(node.names, libcst.ImportStar):
+                    continue
+
+                for name in node.names:
+                    ret.append(name.asname.name.value if name.asname else name.name.value)
+
+        return ret
diff --git a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
index 35b466a..697ec0c 100644
--- a/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
+++ b/web/htdocs/python/parser/misc/RemoveUnusedImportTransformer.py
@@ -8,16 +8,13 @@ class RemoveUnusedImportTransformer(libcst.CSTTransformer):
 
         self.unused_imports = defaultdict(set)
         
-        imported = []
         for scope in scopes:
             for assignment in scope.assignments:
                 node = assignment.node
 
                 if isinstance(assignment, libcst.metadata.Assignment) and isinstance(node, (libcst.Import, libcst.ImportFrom)):                    
-                    if len(assignment.references) == 0 or assignment.name in imported:                        
+                    if len(assignment.references) == 0:
                         self.unused_imports[node].add(assignment.name)
-                    else:
-                        imported.append(assignment.name)
 
     def _leave_import_alike(self, original_node, updated_node):
         if original_node not in self.unused_imports:
-- 
2.43.0


From 5ddb9d3f8c6cbd78843275168855f04337b61818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:04 +0000
Subject: [PATCH 35/39] fix: web editor lost the stars of unpacked call
 arguments

---
 web/htdocs/python/parser/misc/CodeExtractor.py |  8 ++++++++
 web/htdocs/python/parser/misc/CodeGenerator.py | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index de61cf2..be4a729 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -74,6 +74,14 @@ class CodeExtractor:
             return arg_names[arg_num["num"]]
 
         for argument in call_node.args:
+            if argument.star:
+                # Unpacked arguments are kept as they are (the star is part of the value). Positions of those after it are unknown.
+                arg_names = []
+                new_value["arguments"].append({
+                    "value": argument.star + libcst.parse_module("").code_for_node(argument.value)
+                })
+                continue
+
             new_arg = {
                 "value": self._parse_node(argument.value)
             }
diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index f7f43e3..30516aa 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -98,6 +98,7 @@ class CodeGenerator:
             args = [
                 libcst.Arg(
                     keyword = libcst.parse_expression(arg["name"]) if ("name" in arg and arg["name"]) else None,
+                    star = self._get_star(arg),
                     value = self._element_value(arg, level + 1),
                     whitespace_after_arg = self._generate_parenthesized_whitespace(libcst.SimpleWhitespace(""), (level + 1) if arg != last_arg else level)
                 )
@@ -135,10 +136,22 @@ class CodeGenerator:
         
         return level
 
+    # Returns the star(s) a (call argument) value starts with, if it is unpacked, or an empty string
+    def _get_star(self, element):
+        value = element["value"] if "value" in element else None
+
+        if isinstance(value, str):
+            for star in ("**", "*"):
+                if value.startswith(star):
+                    return star
+
+        return ""
+
     # Returns the value of an element
     def _element_value(self, element, level):
         if "value" in element and element["value"] != None:
-            return self._generate(element["value"], level)
+            value = element["value"]
+            return self._generate(value[len(self._get_star(element)):] if isinstance(value, str) else value, level)
             
         raise Exception("Invalid node: " + repr(element))
     
-- 
2.43.0


From 6e7a5c7662bb022f8b1cf78325db4f55dfc5cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:13 +0000
Subject: [PATCH 36/39] fix: web editor added new assignments behind the
 existing ones which use them

---
 .../python/parser/misc/CodeGenerator.py       | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/web/htdocs/python/parser/misc/CodeGenerator.py b/web/htdocs/python/parser/misc/CodeGenerator.py
index 30516aa..818b977 100644
--- a/web/htdocs/python/parser/misc/CodeGenerator.py
+++ b/web/htdocs/python/parser/misc/CodeGenerator.py
@@ -8,6 +8,7 @@ class CodeGenerator:
         self.insert_before_assign = insert_before_assign
         self.format = format
         self.initial_level = 0
+        self.open_assigns = []
 
     # Generate libcst nodes from the passed specification data.
     def generate(self, data):   
@@ -28,6 +29,7 @@ class CodeGenerator:
                 return self._generate_dict_node(data, level)
             
             if "assign" in data and data["assign"]:
+                self._open_assign(data)
                 return self._resolve_assign(
                     node = self._generate(data["value"], self.initial_level) if "value" in data and data["value"] not in (None, "") else None, 
                     data = data
@@ -70,6 +72,7 @@ class CodeGenerator:
             raise Exception("No arguments in dict: " + repr(data))
 
         level = self._resolve_assign_level(data, level)
+        self._open_assign(data)
 
         dic = libcst.Dict(
             elements = [
@@ -92,6 +95,7 @@ class CodeGenerator:
 
         last_arg = args[len(args)-1] if len(args) > 0 else None
         level = self._resolve_assign_level(data, level)
+        self._open_assign(data)
 
         call = libcst.Call(
             func = libcst.parse_expression(data["name"]),
@@ -112,6 +116,8 @@ class CodeGenerator:
     # Resolve assigns. Not recursive: Assigns to assigns are realized with separate nodes.
     def _resolve_assign(self, node, data):
         if "assign" in data and data["assign"]:
+            self.open_assigns.pop()
+
             if self.parser and self.file_id:
                 if not node:
                     raise Exception("You can only omit the value field when no parser is connected")
@@ -120,7 +126,7 @@ class CodeGenerator:
                     data["assign"],
                     node,
                     self.file_id, 
-                    insert_before_assign = self.insert_before_assign
+                    insert_before_assign = self._get_insert_before_assign()
                 )
 
             return libcst.Name(
@@ -129,6 +135,19 @@ class CodeGenerator:
 
         return node
 
+    # Remember that the node of an assignment is being generated
+    def _open_assign(self, data):
+        if "assign" in data and data["assign"]:
+            self.open_assigns.append(data["assign"])
+
+    # New assignments have to be added before the first existing one which uses them
+    def _get_insert_before_assign(self):
+        for name in reversed(self.open_assigns):
+            if self.parser.get_assignment(name, self.file_id):
+                return name
+
+        return self.insert_before_assign
+
     # If the data is an assignment, start at the initial level again
     def _resolve_assign_level(self, data, level):
         if "assign" in data and data["assign"]:
-- 
2.43.0


From cce296cb911a2dc5f16ba7ee7df1954ea6b4845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:31 +0000
Subject: [PATCH 37/39] fix: web editor proposed rigs which do not exist for
 MAPPING_RIG_SELECT

---
 web/htdocs/definitions/meta.json | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/web/htdocs/definitions/meta.json b/web/htdocs/definitions/meta.json
index cb4d8eb..7c453f7 100644
--- a/web/htdocs/definitions/meta.json
+++ b/web/htdocs/definitions/meta.json
@@ -721,6 +721,20 @@
                 "parameters": []
             },
 
+            {
+                "entityName": "MAPPING_RIG_SELECT",
+                "parameters": [
+                    {
+                        "name": "rig",
+                        "type": "int",
+                        "range": {
+                            "min": 0,
+                            "max": 4
+                        }
+                    }
+                ]
+            },
+
             {
                 "entityName": "MAPPING_EFFECT_BUTTON",
                 "parameters": [
-- 
2.43.0


From b537768db18f045f47f20916012ff26d792fdf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:33 +0000
Subject: [PATCH 38/39] fix: web editor must not name positional arguments next
 to unpacked ones

---
 web/htdocs/python/parser/misc/CodeExtractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/htdocs/python/parser/misc/CodeExtractor.py b/web/htdocs/python/parser/misc/CodeExtractor.py
index be4a729..7eb8b8b 100644
--- a/web/htdocs/python/parser/misc/CodeExtractor.py
+++ b/web/htdocs/python/parser/misc/CodeExtractor.py
@@ -64,7 +64,8 @@ class CodeExtractor:
 
         arg_num = { "num": -1 }
         arg_names = self.get_arg_names(new_value["name"])
-        if not arg_names:
+        if not arg_names or any(argument.star for argument in call_node.args):
+            # Positions are unknown if there are unpacked arguments
             arg_names = []
         
         def next_arg_name():
@@ -75,8 +76,7 @@ class CodeExtractor:
 
         for argument in call_node.args:
             if argument.star:
-                # Unpacked arguments are kept as they are (the star is part of the value). Positions of those after it are unknown.
-                arg_names = []
+                # Unpacked arguments are kept as they are (the star is part of the value)
                 new_value["arguments"].append({
                     "value": argument.star + libcst.parse_module("").code_for_node(argument.value)
                 })
-- 
2.43.0


From 9942aa6c6548dd8ddb6f96590e9144e7a27ef18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:48 +0000
Subject: [PATCH 39/39] fix: show a pager again when it gets enabled

---
 content/lib/pyswitch/clients/local/actions/pager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/content/lib/pyswitch/clients/local/actions/pager.py b/content/lib/pyswitch/clients/local/actions/pager.py
index cf80ace..64498e4 100755
--- a/content/lib/pyswitch/clients/local/actions/pager.py
+++ b/content/lib/pyswitch/clients/local/actions/pager.py
@@ -100,6 +100,11 @@ class PagerAction(Callback, Action):
         self.current_page_index = 0
         self.current_page_id = self.pages[self.current_page_index]["id"] if len(self.pages) > 0 else None
 
+    # Requests the mappings like every callback, and shows the pager again when it got enabled like every action
+    def update(self):
+        Callback.update(self)
+        Action.update(self)
+
     # Called when the switch is pushed down
     def push(self):
         if not len(self.pages):
-- 
2.43.0

