From daea6f4c198c3dda38b9d0ae895f33c72f4ce207 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 01/97] fix: fail over subscriptions when the current provider
 withdraws a topic

A withdrawal left the subscription at the withdrawing link, and the next
announcement of the topic by another link raised KeyError, which dropped
the announcing link.
---
 streamtasks/net/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3c5ee23..9b1bc48 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -305,8 +305,10 @@ class Switch:
     for pt in message.add:
       if pt.id in self.in_topics:
         topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)
-        if topic_provider is None or topic_provider.out_topics[pt.id] > pt.cost:
+        if topic_provider is None or topic_provider.out_topics.get(pt.id, float("inf")) > pt.cost:
           resub_topics.add(pt.id)
+    for pt in message.remove: # the current provider is gone, move to another one or unsubscribe
+      if pt.id in origin.recv_topics and pt.id not in origin.out_topics: resub_topics.add(pt.id)
     await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
-- 
2.43.0


From ce7f1246b9e6a785fc40ca150fa3ac56fefdf276 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 02/97] fix: a closed link no longer takes down the link whose
 message is being handled

Sending to a closed link raised ConnectionClosedError into the receive loop
of the originating link, which was then removed and the message was not
delivered to the remaining links. Requesting a topic with no links left
raised ValueError.
---
 streamtasks/net/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 9b1bc48..f88566d 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -252,7 +252,9 @@ class Switch:
 
   def stop_receiving(self): self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: list[Link]):
-    for link in links: await link.send(message)
+    for link in list(links):
+      try: await link.send(message)
+      except ConnectionClosedError: pass # the receiver of that link takes care of removing it
   async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
 
   async def send_remove_in_topic(self, topic: int):
@@ -263,8 +265,8 @@ class Switch:
     change_map: dict[Link, InTopicsChangedMessage] = {}
 
     for topic in add_topics:
-      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')))
-      if topic not in best_link.out_topics: continue
+      best_link = min((link for link in self.link_manager.links if not link.closed), key=lambda link: link.out_topics.get(topic, float('inf')), default=None)
+      if best_link is None or topic not in best_link.out_topics: continue
       if best_link not in change_map: change_map[best_link] = InTopicsChangedMessage(set(), set())
       change_map[best_link].add.add(topic)
 
@@ -275,7 +277,7 @@ class Switch:
           if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
           for topic in remove_sub: change_map[conn].remove.add(topic)
 
-    for conn, message in change_map.items(): await conn.send(message)
+    for conn, message in change_map.items(): await self.send_to(message, [conn])
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
@@ -291,7 +293,7 @@ class Switch:
     if message.address not in self.addresses: return
     address_cost = self.addresses.get(message.address)
     found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)
-    if found_conn is not None: await found_conn.send(message)
+    if found_conn is not None: await self.send_to(message, [found_conn])
 
   async def on_stream_message(self, message: TopicMessage, origin: Link):
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
-- 
2.43.0


From 6fb59514d8b5379a96af9853cceefdacc4084ccc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 03/97] fix: release the subscriptions of a removed link

The topics a link had subscribed to stayed counted after the link was gone,
so the upstream provider was never unsubscribed.
---
 streamtasks/net/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index f88566d..ef23fef 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -234,14 +234,15 @@ class Switch:
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
 
   async def remove_link(self, link: Link):
+    if not self.link_manager.has_link(link): return
     self.link_manager.remove_link(link)
 
-    recv_topics = link.recv_topics
+    removed_in_topics = self.in_topics.remove_many(link.in_topics)
     removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
-    updated_in_topics = recv_topics - removed_topics
+    updated_in_topics = set(topic for topic in link.recv_topics - removed_topics if topic in self.in_topics)
 
-    if len(updated_in_topics) > 0:
-      await self.request_in_topics_change(set(updated_in_topics), set())
+    if len(updated_in_topics) > 0 or len(removed_in_topics) > 0:
+      await self.request_in_topics_change(updated_in_topics, removed_in_topics)
 
     if len(removed_topics) > 0 or len(updated_topics) > 0:
       await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
-- 
2.43.0


From f0186fe2a00fc0da545e0ef353305f0c69422396 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 04/97] fix: do not cancel the cleanup of a lost link

remove_link runs inside the receiver task of the lost link and cancelled that
very task, so everything after the first send that had to wait (withdrawals,
resubscriptions) was dropped.
---
 streamtasks/net/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index ef23fef..2b0f7f1 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -196,7 +196,9 @@ class LinkManager:
   def has_link(self, link: Link): return link in self._link_recv_tasks
   def accept_link(self, link: Link, receiver_task: asyncio.Task): self._link_recv_tasks[link] = receiver_task
   def remove_link(self, link: Link):
-    if link in self._link_recv_tasks: self._link_recv_tasks.pop(link).cancel()
+    if link not in self._link_recv_tasks: return
+    receiver_task = self._link_recv_tasks.pop(link)
+    if receiver_task is not asyncio.current_task(): receiver_task.cancel() # it must not cancel its own cleanup
   def cancel_all(self):
     for task in self._link_recv_tasks.values(): task.cancel()
     self._link_recv_tasks.clear()
-- 
2.43.0


From 41829f3aaa0b7230a844ccf0a33f437f5241cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 05/97] fix: a link being added no longer misses concurrent
 announcements

The link was registered only after the awaited sends of the current state, so
a change announced by another link in between never reached it.
---
 streamtasks/net/__init__.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 2b0f7f1..9b15bfc 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -218,23 +218,25 @@ class Switch:
     await self.add_link(a)
     return b
   async def add_link(self, link: Link):
+    # accept the link together with the state it is told about, so it does not miss changes made while this is still sending
+    other_links = list(self.link_manager.links)
     switch_out_topics = set(self.out_topics.items())
-    if len(switch_out_topics) > 0: await link.send(OutTopicsChangedMessage(switch_out_topics, set()))
-
     switch_addresses = set(self.addresses.items())
-    if len(switch_addresses) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))
-
     added_out_topics = self.out_topics.add_many(link.get_priced_out_topics())
-    if len(added_out_topics) > 0: await self.broadcast(OutTopicsChangedMessage(added_out_topics, set()))
-
     added_addresses = self.addresses.add_many(link.get_priced_addresses())
-    if len(added_addresses) > 0: await self.broadcast(AddressesChangedMessage(added_addresses, set()))
-
     added_in_topics = self.in_topics.add_many(link.in_topics)
-    if len(added_in_topics) > 0: await self.request_in_topics_change(added_in_topics, set())
-
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
 
+    try:
+      if len(switch_out_topics) > 0: await link.send(OutTopicsChangedMessage(switch_out_topics, set()))
+      if len(switch_addresses) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))
+    except BaseException:
+      await self.remove_link(link)
+      raise
+    if len(added_out_topics) > 0: await self.send_to(OutTopicsChangedMessage(added_out_topics, set()), other_links)
+    if len(added_addresses) > 0: await self.send_to(AddressesChangedMessage(added_addresses, set()), other_links)
+    if len(added_in_topics) > 0: await self.request_in_topics_change(added_in_topics, set())
+
   async def remove_link(self, link: Link):
     if not self.link_manager.has_link(link): return
     self.link_manager.remove_link(link)
-- 
2.43.0


From 8d1669b2f235bba4548b446b192a598b23b562ff Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 06/97] fix: close a link whose connection was lost

A link whose receiver reported a closed connection was removed from the
switch but never closed, so its on_closed handlers (reconnecting,
connection counting) did not run while somebody still held it.
---
 streamtasks/net/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 9b15bfc..f000bce 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -345,7 +345,7 @@ class Switch:
         message = await link.recv()
         await self.handle_message(message, link)
     except asyncio.CancelledError: pass
-    except ConnectionClosedError: pass
+    except ConnectionClosedError: link.close()
     except BaseException as e:
       logging.error(f"Error receiving from link: {e}")
       raise e
-- 
2.43.0


From 242e1b07388be9855c300ab1145eb4a50d530f3f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 07/97] fix: wait between reconnection attempts

asyncio.wait was given the delay instead of awaitables, which ended the
reconnector at the first lost connection.
---
 streamtasks/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 8b979fa..1b38386 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -74,9 +74,9 @@ class AutoReconnector(Worker):
           link.on_closed.append(functools.partial(self._async_connected.set, False))
           if link.closed: self._async_connected.set(False) # in case it closed already
           await self._async_connected.wait(False)
-          await asyncio.wait(self.delay)
+          await asyncio.sleep(self.delay)
           logging.info("reconnecting")
-        except (ConnectionClosedError, ConnectionError): pass
+        except (ConnectionClosedError, ConnectionError): await asyncio.sleep(self.delay)
     finally: await self.shutdown()
 
   async def wait_connected(self, connected: bool = True): await self._async_connected.wait(connected)
-- 
2.43.0


From 00c89459caf43625b7e9e792fccea0f469af39fc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 08/97] fix: tell a link that withdraws an id when nobody else
 provides it either

A link that announces an id may have been told about another provider before.
When it is the last one to withdraw, that announcement was never taken back.
---
 streamtasks/net/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index f000bce..89f6a24 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -307,6 +307,7 @@ class Switch:
     out_topics_added, out_topics_removed = self.out_topics.change_many(message.add, message.remove)
     if len(out_topics_added) > 0 or len(out_topics_removed) > 0:
       await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
+    if len(out_topics_removed) > 0: await self.send_to(OutTopicsChangedMessage(set(), out_topics_removed), [ origin ]) # it may have been told about another provider
 
     resub_topics = set()
     for pt in message.add:
@@ -322,6 +323,7 @@ class Switch:
     addresses_added, addresses_removed = self.addresses.change_many(message.add, message.remove)
     if len(addresses_added) > 0 or len(addresses_removed) > 0:
       await self.send_to(AddressesChangedMessage(addresses_added, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin ])
+    if len(addresses_removed) > 0: await self.send_to(AddressesChangedMessage(set(), addresses_removed), [ origin ])
 
   async def handle_message(self, message: Message, origin: Link):
     if isinstance(message, TopicMessage):
-- 
2.43.0


From bddf03e29baa55200c6c36bd75c615fce9fc7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 09/97] fix: do not miss a frame when its start mark follows
 part of a start mark

---
 streamtasks/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 1b38386..8896f8f 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -158,7 +158,7 @@ class RawStreamConnection(RawConnection):
     while sync_index < len(RawStreamConnection.SYNC_WORD):
       next_byte = await self._reader.readexactly(1)
       if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1
-      else: sync_index = 0
+      else: sync_index = 1 if RawStreamConnection.SYNC_WORD[0] == next_byte[0] else 0
     data_len, = struct.unpack("<L", await self._reader.readexactly(4))
     return await self._reader.readexactly(data_len)
 
-- 
2.43.0


From 8ce72e77d66984c544877cfc86db08a804b84a4b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 10/97] fix: check the password of every client

The password was removed from the handshake data of the server by the first
client, so that later clients were accepted without it (and the ones with it
rejected).
---
 streamtasks/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 8896f8f..0111971 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -103,10 +103,10 @@ class RawConnection(ABC):
     try:
       client_data = msgpack.unpackb(await self.recv())
       if not isinstance(client_data, dict): raise ValueError()
-      server_auth = extra_data.pop("auth", None)
+      server_auth = extra_data.get("auth", None)
       client_auth = client_data.get("auth", None)
       accepted = client_data.get("version", None) == _get_version_specifier() and client_auth == server_auth
-      server_data = { **extra_data, "accepted": accepted, "version": _get_version_specifier() }
+      server_data = { **{ k: v for k, v in extra_data.items() if k != "auth" }, "accepted": accepted, "version": _get_version_specifier() }
       await self.send(msgpack.packb(server_data))
       if not accepted: raise ConnectionError("Server rejected connection")
     except BaseException as e:
-- 
2.43.0


From a9e436f8c637e36bd155d084a1b7f9a5838bffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 11/97] fix: do not send a second response when a handler fails
 validation after responding

---
 streamtasks/client/fetch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/fetch.py b/streamtasks/client/fetch.py
index 3c1552a..1cdb0b8 100644
--- a/streamtasks/client/fetch.py
+++ b/streamtasks/client/fetch.py
@@ -109,7 +109,8 @@ class FetchServer(Receiver[tuple[str, FetchRequest]]):
             await self._descriptor_mapping[descriptor](fr)
             if not fr.response_sent: await fr.respond(None)
           except asyncio.CancelledError: raise
-          except ValidationError as e: await fr.respond_error(new_fetch_body_bad_request(str(e)))
+          except ValidationError as e:
+            if not fr.response_sent: await fr.respond_error(new_fetch_body_bad_request(str(e)))
           except BaseException as e:
             if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))
             logging.debug(e, descriptor)
-- 
2.43.0


From 3273a85d7bac5b0273f208cc5ba1d79aaea74ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 12/97] fix: keep receiving for a receiver that is enabled
 while the last one is disabled

The ending receive task was still registered, so that no new one was started
and for example overlapping fetches waited forever.
---
 streamtasks/client/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index d88d5dd..707d1b4 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -118,9 +118,12 @@ class Client:
   async def disable_receiver(self, receiver: Receiver):
     self._receivers.remove(receiver)
     if len(self._receivers) == 0 and self._receive_task is not None:
-      self._receive_task.cancel()
-      try: await self._receive_task
+      task = self._receive_task
+      task.cancel()
+      try: await task
       except asyncio.CancelledError: pass
+      if self._receive_task is task: self._receive_task = None # it was cancelled before it started
+      if len(self._receivers) > 0: self._receive_task = self._receive_task or asyncio.create_task(self._task_receive()) # enabled while the task was ending
 
   def set_address_name(self, name: str, address: Optional[int]):
     if address is None: self._address_resolver_cache.pop(name, None)
-- 
2.43.0


From 8de9ddb7295581179ff01d8bcd77ffff6973ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 13/97] fix: report only the tracked ids as removed by a forced
 removal

---
 streamtasks/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c94db34..92c0ced 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -51,8 +51,7 @@ class IdTracker:
     return final
   def remove_many(self, ids: Iterable[int], force: bool = False):
     if force:
-      for id in ids: self._map.pop(id, None)
-      return ids
+      return set(id for id in list(ids) if self._map.pop(id, None) is not None)
     else:
       final = set()
       for id in ids:
-- 
2.43.0


From 77f27a92096ffdeed6bfc258a5713500b9c91fda Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 14/97] fix: update the cost of an input topic

Links deliver announcements as OutTopicsChangedRecvMessage, which was ignored.
---
 streamtasks/client/topic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 1a6e043..66abf0c 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -7,7 +7,7 @@ from streamtasks.utils import AsyncBool, AsyncTrigger
 from streamtasks.net.serialization import RawData
 from streamtasks.message.utils import get_timestamp_from_message
 from streamtasks.net import Message
-from streamtasks.net.messages import InTopicsChangedMessage, OutTopicsChangedMessage, TopicControlData, TopicControlMessage, TopicDataMessage, TopicMessage
+from streamtasks.net.messages import InTopicsChangedMessage, OutTopicsChangedRecvMessage, TopicControlData, TopicControlMessage, TopicDataMessage, TopicMessage
 
 if TYPE_CHECKING:
   from streamtasks.client import Client
@@ -64,11 +64,10 @@ class _InTopicReceiver(Receiver[tuple[_InTopicAction, None | int | TopicControlD
   def _put_msg(self, action: _InTopicAction, data: None | int | TopicControlData | RawData): self._recv_queue.put_nowait((action, data))
 
   def on_message(self, message: Message):
-    if isinstance(message, OutTopicsChangedMessage):
-      if self._topic in message.remove: self._put_msg(_InTopicAction.SET_COST, None)
-      else:
-        new_cost = next((pid.cost for pid in message.add if pid.id == self._topic), None)
-        if new_cost is not None: self._put_msg(_InTopicAction.SET_COST, new_cost)
+    if isinstance(message, OutTopicsChangedRecvMessage):
+      new_cost = next((pid.cost for pid in message.add if pid.id == self._topic), None)
+      if new_cost is not None: self._put_msg(_InTopicAction.SET_COST, new_cost)
+      elif any(pid.id == self._topic for pid in message.remove): self._put_msg(_InTopicAction.SET_COST, None)
 
     if isinstance(message, TopicMessage) and message.topic == self._topic:
       if isinstance(message, TopicControlMessage): self._put_msg(_InTopicAction.SET_CONTROL, message.to_data())
-- 
2.43.0


From 1fbfc89825f7b22bfb2f38395bbd360f6d0cd8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 15/97] fix: let inputs with a higher priority go first

An input was never taken out of the set of finished inputs again.
---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 66abf0c..5cc6c50 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -145,7 +145,7 @@ class PrioritizedSequentialInTopicSynchronizer(SequentialInTopicSynchronizer):
     self._done_topics = set()
 
   async def wait_for(self, topic_id: int, timestamp: int) -> bool:
-    if topic_id is self._done_topics: self._done_topics.remove(topic_id)
+    if topic_id in self._done_topics: self._done_topics.remove(topic_id)
     return await super().wait_for(topic_id, timestamp)
 
   def start_receive(self, topic_id: int):
-- 
2.43.0


From 1634f73960a8287879f3d0077ed4018858a70653 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 16/97] fix: forget an address name that was given up

---
 streamtasks/client/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index c401ce6..95b8bb1 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -169,7 +169,7 @@ async def address_name_context(client: 'Client', name: str, address: int | None
     yield
   finally:
     await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name).model_dump())
-    client.set_address_name(name, address)
+    client.set_address_name(name, None)
 
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
-- 
2.43.0


From d16f154f440f4c8284d8a4817270f96c65783220 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 17/97] fix: reject requests for a negative number of ids

They moved the counter back, so that ids were handed out twice.
---
 streamtasks/client/discovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index 95b8bb1..dbef0b1 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -1,7 +1,7 @@
 from contextlib import asynccontextmanager
 import secrets
 from typing import TYPE_CHECKING, Optional
-from pydantic import BaseModel, ValidationError, field_validator
+from pydantic import BaseModel, NonNegativeInt, ValidationError, field_validator
 from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.signal import send_signal
@@ -48,7 +48,7 @@ class TopicSpaceResponseMessage(BaseModel):
   topic_id_map: list[tuple[int, int]]
 
 class GenerateAddressesRequestMessageBase(BaseModel):
-  count: int
+  count: NonNegativeInt
 
 class GenerateAddressesRequestMessage(GenerateAddressesRequestMessageBase):
   request_id: int
@@ -60,7 +60,7 @@ class GenerateAddressesResponseMessage(GenerateAddressesResponseMessageBase):
   request_id: int
 
 class GenerateTopicsRequestBody(BaseModel):
-  count: int
+  count: NonNegativeInt
 
 
 class GenerateTopicsResponseBody(BaseModel):
-- 
2.43.0


From cd98d5ba5bff5bc7983a502f1122ab2e8855ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 18/97] fix: keep switching after a control value that is not a
 number

---
 streamtasks/system/tasks/switch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index db0cfc3..56cd5ed 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -1,4 +1,5 @@
 import asyncio
+import math
 from contextlib import AsyncExitStack
 from typing import Any
 from typing_extensions import TypedDict
@@ -61,7 +62,8 @@ class SwitchTask(Task):
       except ValidationError: pass
 
   async def set_value(self, idx: int, value: float | int):
-    self.control_values[idx] = value
+    if math.isnan(value): self.control_values.pop(idx, None) # a NaN can not be compared with the other controls
+    else: self.control_values[idx] = value
     selected_index = self._get_selected_index()
     if selected_index != -1:
       await self.out_topic.set_paused(self.pairs[selected_index][0].is_paused)
-- 
2.43.0


From 13843a839259fe87008f06feda1c755b307c0809 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 19/97] fix: pause the output of a switch with the input that
 takes over from a paused control

---
 streamtasks/system/tasks/switch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/switch.py b/streamtasks/system/tasks/switch.py
index 56cd5ed..30d26cc 100644
--- a/streamtasks/system/tasks/switch.py
+++ b/streamtasks/system/tasks/switch.py
@@ -55,7 +55,9 @@ class SwitchTask(Task):
       data = await topic.recv_data_control()
       try:
         if isinstance(data, TopicControlData):
-          if data.paused: self.control_values.pop(idx, None)
+          if data.paused:
+            self.control_values.pop(idx, None)
+            await self.update_paused()
         else:
           message = NumberMessage.model_validate(data.data)
           await self.set_value(idx, message.value)
@@ -64,6 +66,9 @@ class SwitchTask(Task):
   async def set_value(self, idx: int, value: float | int):
     if math.isnan(value): self.control_values.pop(idx, None) # a NaN can not be compared with the other controls
     else: self.control_values[idx] = value
+    await self.update_paused()
+
+  async def update_paused(self):
     selected_index = self._get_selected_index()
     if selected_index != -1:
       await self.out_topic.set_paused(self.pairs[selected_index][0].is_paused)
-- 
2.43.0


From b1c985436f7a0b6f2d7e634324fb102d91de5c0c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 20/97] fix: wait for a keyframe when a media switch returns to
 an input that went on meanwhile

---
 streamtasks/system/tasks/media/mediaswitch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/tasks/media/mediaswitch.py b/streamtasks/system/tasks/media/mediaswitch.py
index 1e062a7..fe6889d 100644
--- a/streamtasks/system/tasks/media/mediaswitch.py
+++ b/streamtasks/system/tasks/media/mediaswitch.py
@@ -25,6 +25,8 @@ class MediaSwitchTask(SwitchTask):
             except ValidationError: pass
           if idx == self._active_index:
             await self.out_topic.send(data)
+      elif idx == self._active_index and not isinstance(data, TopicControlData):
+        self._active_index = -1 # a packet was skipped, wait for the next keyframe
 
 class MediaSwitchTaskHost(TaskHost):
   @property
-- 
2.43.0


From c09e944e2f7d99e1d7a7597f428188d9b100eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 21/97] fix: pause the output of a time buffer when the input
 was paused before the buffer ran empty

---
 streamtasks/system/tasks/timebuffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timebuffer.py b/streamtasks/system/tasks/timebuffer.py
index 92e6206..1d5d62a 100644
--- a/streamtasks/system/tasks/timebuffer.py
+++ b/streamtasks/system/tasks/timebuffer.py
@@ -64,8 +64,8 @@ class TimeBufferTask(Task):
 
   async def run_sender_clock(self):
     while True:
-      if len(self.message_queue) == 0: await self.update_trigger.wait()
       await self.out_topic.set_paused(self.paused and len(self.message_queue) == 0)
+      if len(self.message_queue) == 0 and self.out_topic.is_paused == self.paused: await self.update_trigger.wait()
 
       if len(self.message_queue) > 0:
         next_message = self.message_queue[0]
-- 
2.43.0


From bbd0db17d968e9f822343bcfb1134477c0d024c9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 22/97] fix: replay messages that are no dictionaries

---
 streamtasks/system/tasks/replaybuffer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index dc43f7a..91a320d 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -63,7 +63,6 @@ class ReplayBufferTask(Task):
     while True:
       time_offset: int | None = None
       for data in self.buffer:
-        data = data.shallow_copy()
         try:
           ts = get_timestamp_from_message(data)
           if time_offset is None: time_offset = self.sync.time - ts
-- 
2.43.0


From 62a2154bfde33cfac060bc13fe10866fa9e40d44 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:37:44 +0000
Subject: [PATCH 23/97] fix: clear a data buffer on databases without clear()

---
 streamtasks/rawdatabuffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index de5fc8f..fc7132e 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -15,7 +15,7 @@ class RawDataBuffer:
     os.remove(self._db_file)
 
   def clear(self):
-    self._db.clear()
+    for key in self._index_map: del self._db[key]
     self._index_map.clear()
 
   def append(self, data: RawData):
-- 
2.43.0


From 818576347a901ed53b17994a39df91d994daaad4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 24/97] fix: do not block everything when looping over a
 recording that spans no time

---
 streamtasks/system/tasks/replaybuffer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index 91a320d..5809d34 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -72,6 +72,7 @@ class ReplayBufferTask(Task):
         except ValueError: pass
         await self.out_topic.send(data)
       if not self.config.loop: break
+      await asyncio.sleep(0.001) # a recording that spans no time must not block everything else
     await self.out_topic.set_paused(True)
 
   async def update_playing_state(self):
-- 
2.43.0


From 5cf9e2bef46f32761cea1601c38d840503073839 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 25/97] fix: report an infinite timestamp as missing

---
 streamtasks/message/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index 72b0276..b2e999c 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -1,3 +1,4 @@
+import math
 from streamtasks.net.serialization import RawData
 
 def get_timestamp_from_message(data: RawData) -> int:
@@ -7,7 +8,7 @@ def get_timestamp_from_message(data: RawData) -> int:
   elif hasattr(content, "timestamp") and isinstance(content.timestamp, int): timestamp = content.timestamp
   else: raise ValueError(f"could not get timestamp from message: {data}")
   if isinstance(timestamp, int): return timestamp
-  if isinstance(timestamp, float): return int(timestamp)
+  if isinstance(timestamp, float) and math.isfinite(timestamp): return int(timestamp)
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
-- 
2.43.0


From 389b23ae2075c553f67a0dfebaff38340ae97696 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:44:56 +0000
Subject: [PATCH 26/97] fix: keep updating timestamps after a message that is
 no dictionary

---
 streamtasks/system/tasks/timestampupdater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timestampupdater.py b/streamtasks/system/tasks/timestampupdater.py
index 922b566..288c5e8 100644
--- a/streamtasks/system/tasks/timestampupdater.py
+++ b/streamtasks/system/tasks/timestampupdater.py
@@ -37,7 +37,7 @@ class TimestampUpdaterTask(Task):
             data = data.shallow_copy()
             set_timestamp_on_message(data, ref_time + self.config.time_offset)
             await self.out_topic.send(data)
-          except (ValueError, KeyError):
+          except (ValueError, KeyError, TypeError):
             if not self.config.fail_closed: await self.out_topic.send(data)
 
 class TimestampUpdaterTaskHost(TaskHost):
-- 
2.43.0


From df31ee36fb2c7e26f4edb88082284a8bf94dde08 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 27/97] fix: keep converting times after a timestamp that is no
 representable date

---
 streamtasks/system/tasks/timetotext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/timetotext.py b/streamtasks/system/tasks/timetotext.py
index 9ff222b..ab5044c 100644
--- a/streamtasks/system/tasks/timetotext.py
+++ b/streamtasks/system/tasks/timetotext.py
@@ -34,7 +34,7 @@ class TimeToTextTask(Task):
             timestamp = get_timestamp_from_message(data)
             value = datetime.fromtimestamp(timestamp / 1000).strftime(self.config.date_format)
             await self.out_topic.send(RawData(TextMessage(timestamp=timestamp, value=value).model_dump()))
-        except ValueError: pass
+        except (ValueError, OverflowError, OSError): pass
 
 class TimeToTextTaskHost(TaskHost):
   @property
-- 
2.43.0


From f61f2c125a32a3583e46a13ef88e01936fa636a2 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 28/97] fix: find a literal pattern in texts of more than one
 line

---
 streamtasks/system/tasks/stringmatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/stringmatcher.py b/streamtasks/system/tasks/stringmatcher.py
index b7b06a6..3fe519f 100644
--- a/streamtasks/system/tasks/stringmatcher.py
+++ b/streamtasks/system/tasks/stringmatcher.py
@@ -25,7 +25,7 @@ class StringMatcherTask(Task):
     self.in_topic = self.client.in_topic(config.in_topic)
 
     pattern = config.pattern
-    if not config.is_regex: pattern = "^.*(" + re.escape(pattern) + ").*$"
+    if not config.is_regex: pattern = "(?s:.*)(" + re.escape(pattern) + ")"
 
     flags = reduce(lambda pv, cv: pv | cv, [ re.RegexFlag._member_map_[f].value for f in config.flags.upper() if f in re.RegexFlag._member_map_ ], 0)
     self.regex = re.compile(pattern, flags)
-- 
2.43.0


From 474850bd01050d3977384c4cc6f591a316dc05ab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:51:35 +0000
Subject: [PATCH 29/97] fix: evaluate the logical operators of a formula

---
 streamtasks/system/tasks/calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index f2157a7..be3a159 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -31,8 +31,8 @@ start: expr
     | expr "!=" expr -> ne
 
 ?binary_op: sum
-    | binary_op "&" expr -> and
-    | binary_op "|" expr -> or
+    | binary_op "&" expr -> and_
+    | binary_op "|" expr -> or_
     | binary_op "^" expr -> xor
 
 ?sum: product
@@ -51,7 +51,7 @@ start: expr
     | NAME -> variable
     | "-" atom -> neg
     | "+" atom -> pos
-    | "!" atom -> not
+    | "!" atom -> not_
     | "(" expr ")" -> group
     | NAME "(" [expr ("," expr)*]  ")" -> func
 
-- 
2.43.0


From 3f41a15eb1c7ec95d09eab162a5b7977047ba77f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:51:35 +0000
Subject: [PATCH 30/97] fix: evaluate an exclusive or of a formula

---
 streamtasks/system/tasks/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index be3a159..0de4d8a 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -124,7 +124,7 @@ class CalculatorEvalTransformer(Transformer):
   def pow(self, args): return args[0] ** args[1]
   def and_(self, args): return 1.0 if args[0] > 0.5 and args[1] > 0.5 else 0.0
   def or_(self, args): return 1.0 if args[0] > 0.5 or args[1] > 0.5 else 0.0
-  def xor(self, args): return 1.0 if args[0] > 0.5 != args[1] > 0.5 else 0.0
+  def xor(self, args): return 1.0 if (args[0] > 0.5) != (args[1] > 0.5) else 0.0
   def gt(self, args): return 1.0 if args[0] > args[1] else 0.0
   def lt(self, args): return 1.0 if args[0] < args[1] else 0.0
   def ge(self, args): return 1.0 if args[0] >= args[1] else 0.0
-- 
2.43.0


From afb493a3939f68771aa20cdf623bbd094223aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 31/97] fix: let the conditional of a formula bind weaker than
 the other operators

---
 streamtasks/system/tasks/calculator.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 0de4d8a..194b44b 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -20,20 +20,20 @@ start: expr
 ?expr: inline_if
 
 ?inline_if: comparsion
-    | expr "?" expr ":" expr -> inline_if
+    | comparsion "?" expr ":" expr -> inline_if
 
 ?comparsion: binary_op
-    | expr ">" expr -> gt
-    | expr "<" expr -> lt
-    | expr ">=" expr -> ge
-    | expr "<=" expr -> le
-    | expr "==" expr -> eq
-    | expr "!=" expr -> ne
+    | comparsion ">" comparsion -> gt
+    | comparsion "<" comparsion -> lt
+    | comparsion ">=" comparsion -> ge
+    | comparsion "<=" comparsion -> le
+    | comparsion "==" comparsion -> eq
+    | comparsion "!=" comparsion -> ne
 
 ?binary_op: sum
-    | binary_op "&" expr -> and_
-    | binary_op "|" expr -> or_
-    | binary_op "^" expr -> xor
+    | binary_op "&" comparsion -> and_
+    | binary_op "|" comparsion -> or_
+    | binary_op "^" comparsion -> xor
 
 ?sum: product
     | sum "+" product -> add
-- 
2.43.0


From 889ff05be585fc295ebeeb12bcaae86e1cee2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 32/97] fix: parse a power as the right operand of a
 multiplication

---
 streamtasks/system/tasks/calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 194b44b..5f3a0a1 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -40,9 +40,9 @@ start: expr
     | sum "-" product -> sub
 
 ?product: exp
-    | product "*" atom -> mul
-    | product "/" atom -> div
-    | product "%" atom -> mod
+    | product "*" exp -> mul
+    | product "/" exp -> div
+    | product "%" exp -> mod
 
 ?exp: atom
     | exp "**" atom -> pow
-- 
2.43.0


From c5834e7d5ad5121216aeca42bfd829c3ac76f795 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 33/97] fix: keep calculating after values the formula has no
 result for

---
 streamtasks/system/tasks/calculator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index 5f3a0a1..fd07b99 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -12,6 +12,7 @@ from pydantic import BaseModel, ValidationError, model_validator
 from typing import Any
 import math
 from lark import Lark, ParseTree, Transformer
+from lark.exceptions import VisitError
 import re
 
 CalculatorGrammar = Lark(r"""
@@ -121,7 +122,7 @@ class CalculatorEvalTransformer(Transformer):
   def mul(self, args): return args[0] * args[1]
   def div(self, args): return args[0] / args[1]
   def mod(self, args): return args[0] % args[1]
-  def pow(self, args): return args[0] ** args[1]
+  def pow(self, args): return math.pow(args[0], args[1])
   def and_(self, args): return 1.0 if args[0] > 0.5 and args[1] > 0.5 else 0.0
   def or_(self, args): return 1.0 if args[0] > 0.5 or args[1] > 0.5 else 0.0
   def xor(self, args): return 1.0 if (args[0] > 0.5) != (args[1] > 0.5) else 0.0
@@ -234,6 +235,8 @@ class CalculatorTask(Task):
           self.var_values[var_name] = message.value
           await self.send_value(message.timestamp)
         except ValidationError: pass
+        except VisitError as e:
+          if not isinstance(e.orig_exc, (ArithmeticError, ValueError)): raise e
 
   async def send_value(self, timestamp: int):
     result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)
-- 
2.43.0


From e5d29d1c71db05a8088f4e0ea6a6535a68cbeba1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 34/97] fix: give the secret manager its own address name

---
 streamtasks/services/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/services/constants.py b/streamtasks/services/constants.py
index 8cec79a..085fdb8 100644
--- a/streamtasks/services/constants.py
+++ b/streamtasks/services/constants.py
@@ -19,4 +19,4 @@ class NetworkAddressNames:
   TASK_MANAGER = "task_manager"
   TASK_MANAGER_WEB = "task_manager_web"
   NAMED_TOPIC_MANAGER = "named_topic_manager"
-  SECRET_MANAGER = "named_topic_manager"
+  SECRET_MANAGER = "secret_manager"
-- 
2.43.0


From cd6df3802e17014972df9595e3ac973c862dae0b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 35/97] fix: request secrets over connections that serialize

---
 streamtasks/system/secret_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index b670b4c..8a9223d 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -1,7 +1,7 @@
 import asyncio
 import os
 from uuid import UUID
-from pydantic import UUID4, BaseModel, TypeAdapter
+from pydantic import UUID4, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
 from streamtasks.client import Client
@@ -11,14 +11,13 @@ from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.pydanticdb import PydanticDB
 from streamtasks.services.constants import NetworkAddressNames
+from streamtasks.system.task import ModelWithId
 from streamtasks.system.task_web import TaskWebPathHandler
 
-class SecretModel(BaseModel):
-  id: UUID4
+class SecretModel(ModelWithId):
   value: str
 
-class SecretRequestModel(BaseModel):
-  id: UUID4
+SecretRequestModel = ModelWithId
 
 SecretModelListModel = TypeAdapter(list[SecretModel])
 
-- 
2.43.0


From 582e1093c9acfa7dd1dab6997b5999938b47ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 36/97] fix: report an unknown secret as not found

---
 streamtasks/system/secret_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index 8a9223d..87a4de5 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -38,7 +38,7 @@ class SecretManager(TaskWebPathHandler):
       try:
         data = SecretRequestModel.model_validate(req.body)
         await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
-      except KeyError: await req.respond_error(new_fetch_body_not_found("secret not found!"))
+      except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
     async def _(req: FetchRequest):
-- 
2.43.0


From 7bf00c929e2cb74ea6b1bb1adac401d7ac8bf8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:13:49 +0000
Subject: [PATCH 37/97] fix: shut a task host down that has running tasks

---
 streamtasks/system/task.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index a2e884c..b417d38 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -213,9 +213,11 @@ class TaskHost(Worker):
         logging.debug("Failed to register task host!", e, traceback.format_exc())
       raise e
     finally:
-      shutdown_tasks: list[asyncio.Task] = list(self.tasks) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
-      for task in self.tasks.values(): task.cancel()
-      if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable
+      running_tasks: list[asyncio.Task] = list(self.tasks.values())
+      for task in running_tasks: task.cancel()
+      if len(running_tasks) > 0: await asyncio.wait(running_tasks, timeout=1) # NOTE: make configurable
+      unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
+      if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1) # NOTE: make configurable
       await self.shutdown()
       self.ready.clear()
 
-- 
2.43.0


From 5fd576f28ef34abb7cf65fa15cf5b0e0539406e0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 38/97] fix: keep managing tasks when a task host leaves
 without answering

---
 streamtasks/system/task.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index b417d38..c7e5e92 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -274,6 +274,20 @@ class TaskManager(Worker):
     self.address_name = address_name
     self.client: Client
     self.bc_server: BroadcastingServer
+    self._host_requests: dict[str, set[asyncio.Task]] = {}
+
+  async def fetch_task_host(self, task_host: TaskHostRegistration, descriptor: str, body: Any):
+    """ fetches from a task host, raises a KeyError if the host is unregistered before it responds """
+    request = asyncio.create_task(self.client.fetch(task_host.address, descriptor, body))
+    requests = self._host_requests.setdefault(task_host.id, set())
+    requests.add(request)
+    try:
+      await asyncio.wait([ request ])
+      if request.cancelled(): raise KeyError(task_host.id)
+      return request.result()
+    finally:
+      request.cancel()
+      requests.discard(request)
 
   async def run(self):
     try:
@@ -308,6 +322,7 @@ class TaskManager(Worker):
     async def _(message_data: Any):
       data = ModelWithStrId.model_validate(message_data)
       self.task_hosts.pop(data.id, None)
+      for request in self._host_requests.pop(data.id, ()): request.cancel()
       self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }
       await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_UNREGISTERED, RawData(data.model_dump()))
 
@@ -379,7 +394,7 @@ class TaskManager(Worker):
           config=body.config
         )
 
-        task_start_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump())
+        task_start_result = await self.fetch_task_host(task_host, TaskConstants.FD_TASK_START, task_start_request.model_dump())
         task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
 
         task_instance.metadata=task_start_result.metadata
@@ -399,7 +414,7 @@ class TaskManager(Worker):
         task_inst = self.tasks[body.id]
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
-        task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
+        task_cancel_result = await self.fetch_task_host(task_host, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
         if task_cancel_result != "OK": raise Exception("Failed to cancel task!")
         await req.respond("OK")
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From 1b461515bb99ceda4f605d259284a8ece5a3d340 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 39/97] fix: refuse to schedule deployments that are unknown or
 running already

---
 streamtasks/system/task_web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 6c7c817..b93df2f 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -268,6 +268,7 @@ class TaskWebBackend(Worker):
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
+      if (await self.store.get_deployment(deployment_id)).status != "offline": raise ValueError("Deployment is running!")
       tasks = await self.store.all_tasks_in_deployment(deployment_id)
       topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
       topic_space_id, _ = await register_topic_space(self.client, topic_ids)
-- 
2.43.0


From 50fbe0e0c988c9cec437f373d28cd5a32efcb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 40/97] fix: report a started deployment as running and refuse
 to start it again

---
 streamtasks/system/task_web.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index b93df2f..a4fe267 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -289,12 +289,14 @@ class TaskWebBackend(Worker):
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
       running_deployment = self.store.get_running_deployment(deployment_id)
+      if running_deployment.started: raise ValueError("Deployment is running!")
 
       async def start_task(task_id: UUID, task_instance: TaskInstance):
         new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
         running_deployment.task_instances[task_id] = new_task_instance
       await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
 
+      running_deployment.started = True
       running_deployment.task_instance_configs = None
       await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
-- 
2.43.0


From 9f53078245ea377c20fd0cd7cbac01591cbd2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 41/97] fix: do not duplicate a task that is moved out of a
 running deployment

---
 streamtasks/system/task_web.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index a4fe267..8d18942 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -180,11 +180,8 @@ class TaskWebBackendStore:
     except StopIteration: raise ValueError("Invalid id!")
   async def create_or_update_task(self, task: StoredTask) -> StoredTask:
     if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-    try:
-      existing_task = await self.get_task(task.id)
-      if existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-      self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
-    except: self.tasks.update(self.tasks.entries + [task])
+    if any(t.deployment_id in self.running_deployments for t in self.tasks.entries if t.id == task.id): raise ValueError("Deployment is running!")
+    self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
     self.tasks.save()
   async def delete_task(self, id: UUID4):
     task = await self.get_task(id)
-- 
2.43.0


From cae35efb2d3d3fec518754432b8e566c904cb9ad Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 42/97] fix: cancel a task that was scheduled but not started

---
 streamtasks/system/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index c7e5e92..09b503d 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -412,6 +412,11 @@ class TaskManager(Worker):
       try:
         body = TMTaskRequestBase.model_validate(req.body)
         task_inst = self.tasks[body.id]
+        if task_inst.status is TaskStatus.scheduled: # the task host does not know the task yet
+          self.tasks.pop(task_inst.id)
+          task_inst.status = TaskStatus.stopped
+          await self.bc_server.broadcast(get_namespace_by_task_id(task_inst.id), RawData(task_inst.model_dump()))
+          return await req.respond("OK")
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
         task_cancel_result = await self.fetch_task_host(task_host, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
-- 
2.43.0


From 65b69c7caab387f25bd1f5f954abcbb1d737f44f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 43/97] fix: refuse to start a task twice

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 09b503d..8b5f0ec 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -385,6 +385,7 @@ class TaskManager(Worker):
       try:
         body = TMTaskStartRequest.model_validate(req.body)
         task_instance = self.tasks[body.id]
+        if task_instance.status is not TaskStatus.scheduled: return await req.respond_error(new_fetch_body_bad_request("The task was started already!"))
         task_host = self.task_hosts[task_instance.host_id]
 
         task_start_request = TaskStartRequest(
-- 
2.43.0


From 58bdeb8a818d7c4124cbb2e310115c5eb74c0494 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 44/97] fix: match paths against the whole of a pattern

---
 streamtasks/asgiserver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f562507..c0943bf 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -424,8 +424,10 @@ class PathPattern:
       if path[current_index:current_index + part1_len] != part1: return None
 
       current_index += part1_len
-      if part2 == "" and idx == len(self.parts) - 2:
-        param_val = path[current_index:]
+      if idx == len(self.parts) - 2:
+        param_end = len(path) - len(part2)
+        if param_end < current_index or path[param_end:] != part2: return None
+        param_val = path[current_index:param_end]
       else:
         part2_start = path.find(part2, current_index)
         if part2_start == -1: return None
-- 
2.43.0


From e67ff432aa9ceda5ea199b604cef41168840d743 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 45/97] fix: respond with 404 where nothing handles a path
 behind the error handler

---
 streamtasks/asgi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 725c204..b164ced 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -1,4 +1,4 @@
-from streamtasks.asgiserver import HTTPContext, http_context_handler
+from streamtasks.asgiserver import HTTPContext, NoHandlerError, http_context_handler
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer
 from streamtasks.utils import AsyncTaskManager
@@ -260,6 +260,7 @@ async def asgi_app_not_found(_scope, _receive, send):
 async def asgi_default_http_error_handler(ctx: HTTPContext):
   try:
     await ctx.next()
+  except NoHandlerError: raise
   except (ValidationError, ValueError) as e:
     logging.debug("ASGI request error (bad request): ", e)
     await ctx.respond_status(400)
-- 
2.43.0


From 187171c4c8530673fd6128297da6d4f5ada54042 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:42:37 +0000
Subject: [PATCH 46/97] fix: do not follow an index file out of the served
 directory

---
 streamtasks/asgiserver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index c0943bf..461483e 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -544,6 +544,7 @@ def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], r
     if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)
     if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
     if request_path is None or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)
+    if directory_path not in request_path.resolve().parents: return await ctx.respond_status(404)
     await ctx.delegate(static_file_handler(request_path, response_buffer_size=response_buffer_size))
 
   return handler
-- 
2.43.0


From 1490ebb3128c68ccfc4d3f4f420ee16e1cc5b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 47/97] fix: receive empty binary messages of web sockets

---
 streamtasks/asgiserver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 461483e..c146948 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -165,7 +165,9 @@ class WebsocketContext(TransportContext):
     event = await self._wreceive()
     if event["type"] == "websocket.connect": return "connect", None
     if event["type"] == "websocket.disconnect": return "disconnect", None
-    if event["type"] == "websocket.receive": return "message", event.get("bytes", None) or event.get("text", None)
+    if event["type"] == "websocket.receive":
+      data = event.get("bytes", None)
+      return "message", event.get("text", None) if data is None else data
 
   async def send_message(self, data: str | ByteString):
     event: dict[str, Any] = { "type": "websocket.send", "bytes": None, "text": None }
-- 
2.43.0


From 88594c88b89b5faadd3154d647a05e3c63a4c575 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 18:44:42 +0000
Subject: [PATCH 48/97] fix: decode the payload of data URIs that are not
 base64 encoded byte by byte

---
 streamtasks/asgiserver.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index c146948..5b5a701 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -10,7 +10,7 @@ import re
 from typing import Any, Awaitable, Callable, Iterable, Literal, NotRequired
 from typing_extensions import TypedDict
 from collections.abc import ByteString
-from urllib.parse import unquote_plus
+from urllib.parse import unquote_to_bytes
 
 
 class ASGIScopeBase(TypedDict):
@@ -558,12 +558,12 @@ def decode_data_uri(data_uri: str, default_mime_types: tuple[str | None, str | N
   is_base64 = 'base64' in metadata_parts
   mime_type = metadata_parts[0] or ((default_mime_types[1] or "application/octet-stream") if is_base64 else (default_mime_types[0] or "text/plain"))
 
+  charset = next((p for p in metadata_parts if p.startswith("charset=")), None)
+  if charset is not None: charset = charset[8:].strip()
   if is_base64:
-    charset = next((p for p in metadata_parts if p.startswith("charset=")), None)
-    if charset is not None: charset = charset[8:].strip()
     byte_data = base64.b64decode(encoded_data)
   else:
-    charset = default_charset
-    byte_data = unquote_plus(encoded_data).encode(default_charset)
+    charset = charset or default_charset
+    byte_data = unquote_to_bytes(encoded_data)
 
   return byte_data, mime_type, charset
-- 
2.43.0


From aeeb3359d218839ddf3e88d43d63ef28fa46e79b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 49/97] fix: consumers read what arrived before the end of the
 producer

---
 streamtasks/utils.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 92c0ced..16e0c01 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -257,16 +257,14 @@ class AsyncConsumer(Generic[T1]):
   def unregister(self): self._producer._consumers.remove(self)
 
   async def get(self):
-    if len(self._queue) != 0: return self._queue.popleft()
-    if self._closed: raise EOFError()
-    _fut = self._trigger.wait()
-    async with self._producer:
-      while len(self._queue) == 0 and not self._closed:
-        await _fut
-        _fut = self._trigger.wait()
-      # TODO we need to do this in here to prevent double deques
+    while len(self._queue) == 0:
       if self._closed: raise EOFError()
-      return self._queue.popleft()
+      try:
+        async with self._producer:
+          while len(self._queue) == 0 and not self._closed: await self._trigger.wait()
+      except EOFError:
+        if len(self._queue) == 0: raise # what arrived before the end is still to be read
+    return self._queue.popleft()
 
   def put(self, e: T1):
     if self.test_message(e):
-- 
2.43.0


From f900d8271b012f4a6cf6f9bde8d14ec24b843275 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 50/97] fix: a producer that fails does not leave its consumers
 waiting

---
 streamtasks/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 16e0c01..3fad541 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -204,10 +204,10 @@ class AsyncProducer(Generic[T0]):
     try:
       if self._ended: raise EOFError()
       await self.run()
-    except EOFError:
-      self._on_ended()
-      raise
     except asyncio.CancelledError: pass
+    except BaseException:
+      self._on_ended() # nobody must keep waiting, whatever ended it
+      raise
 
   def _on_ended(self):
     self._ended = True
-- 
2.43.0


From d5c5f621dfda8fe99b33b9320f7822ce2937fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:53:24 +0000
Subject: [PATCH 51/97] fix: a producer can be closed before it ever ran

---
 streamtasks/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 3fad541..956af9c 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -177,8 +177,8 @@ class AsyncProducer(Generic[T0]):
 
   async def close(self):
     self._on_ended()
-    self._stop()
     if self._task is not None:
+      self._stop()
       try: await self.wait_done()
       except EOFError: pass
 
@@ -221,7 +221,7 @@ class AsyncMPProducer(AsyncProducer[T0]):
   def __init__(self) -> None:
     super().__init__()
     self.stop_event = threading.Event()
-    self._loop: asyncio.BaseEventLoop
+    self._loop: asyncio.BaseEventLoop | None = None
     self._lock = asyncio.Lock()
 
   async def run(self):
@@ -231,7 +231,9 @@ class AsyncMPProducer(AsyncProducer[T0]):
   @abstractmethod
   def run_sync(self): pass
   def send_message(self, message: Any): self._loop.call_soon_threadsafe(super().send_message, message)
-  def close_consumers(self): self._loop.call_soon_threadsafe(super().close_consumers)
+  def close_consumers(self):
+    if self._loop is None: super().close_consumers() # it never ran
+    else: self._loop.call_soon_threadsafe(super().close_consumers)
   async def wait_done(self):
     try: await super().wait_done()
     finally:
-- 
2.43.0


From 298a04bf46d3e8bce14dcbf73cbfbf152ffe8595 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 52/97] fix: function tasks may take the timestamp

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index 86b52a4..d9b8efd 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -331,7 +331,7 @@ class FnTaskConfig:
     if "config" in params: config_type = params.pop("config").annotation
     if "state" in params: state_type = params.pop("state").annotation
     if "timestamp" in params:
-      if not typing.get_origin(params.pop("timestamp").annotation) is int: raise ValueError("timestamp must be of type int!")
+      if params.pop("timestamp").annotation is not int: raise ValueError("timestamp must be of type int!")
       has_timestamp = True
 
     inputs = [ FnTaskInputConfig.from_parameter(param) for param in params.values() ]
-- 
2.43.0


From 2ba66633a58e45f6e6263f8b6db2863c89be70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 53/97] fix: function tasks may have a state without a config

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d9b8efd..d20737c 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -295,7 +295,7 @@ class FnTaskConfig:
         raise ValueError("The config class needs to have a constructor allowing the creation of an instance without any parameters.")
       self.config_type_adapter # make sure this can be created
 
-    if self.state_type is not None and not _validate_object_create_empty(self.config_type):
+    if self.state_type is not None and not _validate_object_create_empty(self.state_type):
       raise ValueError("The state class needs to have a constructor allowing the creation of an instance without any parameters.")
 
   async def execute(self, timestamp: int, params: dict[str, Any], state: Any, config: Any) -> tuple:
-- 
2.43.0


From d19d7ce02358a0a8a4afbe8002d71ee20ce4c387 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 54/97] fix: function tasks without outputs survive their first
 call

---
 streamtasks/system/fntask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d20737c..b3da6bc 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -313,6 +313,7 @@ class FnTaskConfig:
       else: result = fn()
 
     if isinstance(result, tuple): return result
+    elif result is None and len(self.outputs) == 0: return ()
     else: return (result,)
 
   @staticmethod
-- 
2.43.0


From 9812bdbbcd30a27c043fcaef6e12d1f6629a8256 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 55/97] fix: tell viewers of a control about changes made while
 the last one is sent

---
 streamtasks/system/tasks/ui/controlbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 30172f6..aa7afc0 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -87,10 +87,12 @@ class UIBaseTask(Task, Generic[C, V]):
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
       try:
+        value_changed = self.wait_value_changed()
         await ctx.accept()
         receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
         while ctx.connected:
-          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])
+          await wait_with_dependencies(value_changed, [receive_disconnect_task])
+          value_changed = self.wait_value_changed() # NOTE: must be created before sending, otherwise changes made while sending will be lost
           await ctx.send_message(self._value.model_dump_json())
       finally:
         receive_disconnect_task.cancel()
-- 
2.43.0


From 82742f680d3d25ba05d18b3d3968cfadc728a936 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 56/97] fix: display no text with a maximum length of zero

---
 streamtasks/system/tasks/ui/textdisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/textdisplay.py b/streamtasks/system/tasks/ui/textdisplay.py
index a39065f..6d5ae2f 100644
--- a/streamtasks/system/tasks/ui/textdisplay.py
+++ b/streamtasks/system/tasks/ui/textdisplay.py
@@ -37,7 +37,7 @@ class TextDisplayTask(UIBaseTask[TextDisplayConfig, TextDisplayValue]):
         message = TextMessage.model_validate(data.data)
         if self.config.append: new_text = self.value.value + self.config.seperator + message.value
         else: new_text = message.value
-        if self.config.max_length != -1: new_text = new_text[-self.config.max_length:]
+        if self.config.max_length != -1: new_text = new_text[max(0, len(new_text) - self.config.max_length):]
         self.value = TextDisplayValue(value=new_text)
       except ValidationError: pass
 
-- 
2.43.0


From b88e2eee24b85341804c0841a81a3241f9828846 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 57/97] fix: keep trying to connect whatever way connecting
 fails

---
 streamtasks/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 0111971..5654185 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -76,7 +76,9 @@ class AutoReconnector(Worker):
           await self._async_connected.wait(False)
           await asyncio.sleep(self.delay)
           logging.info("reconnecting")
-        except (ConnectionClosedError, ConnectionError): await asyncio.sleep(self.delay)
+        except (ConnectionClosedError, OSError, websockets.WebSocketException) as e:
+          logging.info(f"Failed to connect. Error: {e}")
+          await asyncio.sleep(self.delay)
     finally: await self.shutdown()
 
   async def wait_connected(self, connected: bool = True): await self._async_connected.wait(connected)
-- 
2.43.0


From 9d833923dc318e8365907cc8c3b67a693499c746 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 58/97] fix: stop stream servers that have connected clients

---
 streamtasks/connection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 5654185..a0b1dd5 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -217,6 +217,11 @@ class ServerBase(Worker):
     self._connection_count_trigger.trigger()
 
 class StreamServerBase(ServerBase):
+  async def serve_until_cancelled(self, server: asyncio.Server):
+    # serve_forever would wait for the open connections, which are closed when this ends
+    try: await asyncio.Future()
+    finally: server.close()
+
   async def on_connection(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter):
     try:
       connection = RawStreamConnection(reader, writer)
@@ -278,8 +283,7 @@ class TCPSocketServer(StreamServerBase):
     self.port = port
 
   async def run_server(self):
-    server = await asyncio.start_server(self.on_connection, self.host, self.port)
-    async with server: await server.serve_forever()
+    await self.serve_until_cancelled(await asyncio.start_server(self.on_connection, self.host, self.port))
 
 class UnixSocketServer(StreamServerBase):
   def __init__(self, path: str, cost: int, handshake_data: dict):
@@ -288,8 +292,7 @@ class UnixSocketServer(StreamServerBase):
     self.path = path
 
   async def run_server(self):
-    server = await asyncio.start_unix_server(self.on_connection, self.path)
-    async with server: await server.serve_forever()
+    await self.serve_until_cancelled(await asyncio.start_unix_server(self.on_connection, self.path))
 
 def get_node_socket_path(node_name: str | None):
   if node_name is None: node_name = NODE_NAME()
-- 
2.43.0


From 88be3e5fb50ec4246c80f8b255be03d63f162186 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 59/97] fix: close the connections of reconnectors and servers
 that are stopped

---
 streamtasks/connection.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index a0b1dd5..552f75e 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -12,7 +12,7 @@ import websockets.connection
 from streamtasks.env import NODE_NAME
 from typing import Any, Awaitable, Callable
 from streamtasks.error import PlatformNotSupportedError
-from streamtasks.net import ConnectionClosedError, Link
+from streamtasks.net import ConnectionClosedError, Link, Switch
 from streamtasks.net.serialization import deserialize_message, serialize_message
 from streamtasks.net.messages import Message
 from importlib.metadata import version
@@ -54,6 +54,9 @@ class WebsocketConnectionData(NetworkConnectionData):
     scheme = "wss" if self.secure else "ws"
     return f"{scheme}://{self.hostname}:{self.port}"
 
+def close_links(switch: Switch):
+  for link in list(switch.link_manager.links): link.close()
+
 class AutoReconnector(Worker):
   def __init__(self, connect_fn: Callable[[], Awaitable[Link]], delay: float = 1):
     super().__init__()
@@ -69,7 +72,10 @@ class AutoReconnector(Worker):
       while True:
         try:
           link = await self.connect_fn()
-          await self.switch.add_link(link)
+          try: await self.switch.add_link(link)
+          except BaseException:
+            link.close()
+            raise
           self._async_connected.set(True)
           link.on_closed.append(functools.partial(self._async_connected.set, False))
           if link.closed: self._async_connected.set(False) # in case it closed already
@@ -79,7 +85,9 @@ class AutoReconnector(Worker):
         except (ConnectionClosedError, OSError, websockets.WebSocketException) as e:
           logging.info(f"Failed to connect. Error: {e}")
           await asyncio.sleep(self.delay)
-    finally: await self.shutdown()
+    finally:
+      close_links(self.switch)
+      await self.shutdown()
 
   async def wait_connected(self, connected: bool = True): await self._async_connected.wait(connected)
 
@@ -201,6 +209,7 @@ class ServerBase(Worker):
       await self.run_server()
     finally:
       self._running_event.clear()
+      close_links(self.switch)
       await self.shutdown()
 
   @abstractmethod
-- 
2.43.0


From 86520de549a7b66eb3245d89603df035840bf776 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 60/97] fix: count connections that close while they are
 accepted, accept none when stopped

---
 streamtasks/connection.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 552f75e..1606b42 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -215,6 +215,19 @@ class ServerBase(Worker):
   @abstractmethod
   async def run_server(self): pass
 
+  async def accept_connection(self, connection: 'RawConnection'):
+    await connection.init_server(self.handshake_data)
+    link = RawConnectionLink(connection, self.cost)
+    self.on_connected()
+    link.on_closed.append(self.on_disconnected) # before it is added, since it may close while it is
+    try:
+      if not self.running: raise ConnectionError("Server stopped")
+      await self.switch.add_link(link)
+    except BaseException:
+      link.close()
+      raise
+    return link
+
   async def wait_running(self): await self._running_event.wait()
   async def wait_connections_changed(self): await self._connection_count_trigger.wait()
 
@@ -234,11 +247,7 @@ class StreamServerBase(ServerBase):
   async def on_connection(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter):
     try:
       connection = RawStreamConnection(reader, writer)
-      await connection.init_server(self.handshake_data)
-      link = RawConnectionLink(connection, self.cost)
-      await self.switch.add_link(link)
-      self.on_connected()
-      link.on_closed.append(self.on_disconnected)
+      await self.accept_connection(connection)
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
 
 class RawWebsocketConnection(RawConnection):
@@ -272,12 +281,9 @@ class WebsocketServer(ServerBase):
     try:
       close_event = asyncio.Event()
       connection = RawWebsocketConnection(socket)
-      await connection.init_server(self.handshake_data)
-      link = RawConnectionLink(connection, self.cost)
-      await self.switch.add_link(link)
-      self.on_connected()
-      link.on_closed.append(self.on_disconnected)
+      link = await self.accept_connection(connection)
       link.on_closed.append(close_event.set)
+      if link.closed: close_event.set() # in case it closed already
       await close_event.wait()
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
 
-- 
2.43.0


From e6d723312b2a24f1c3ba2315e50623154fe013f7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 61/97] fix: remove connections and servers that failed

---
 streamtasks/system/connection_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 2a309ba..953f317 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -4,6 +4,7 @@ import functools
 import hashlib
 import itertools
 import json
+import logging
 import os
 import re
 from typing import Generic, TypeVar
@@ -60,12 +61,16 @@ class UrlData(Generic[T]):
     if self.task is not None: return
     self.task = asyncio.create_task(self.run())
 
-  async def run(self): await asyncio.gather(self.worker.run(), self.change_handler())
+  async def run(self):
+    change_task = asyncio.create_task(self.change_handler())
+    try: await self.worker.run()
+    finally: change_task.cancel()
   async def stop(self):
     if self.task is None: return None
     self.task.cancel()
     try: await self.task
     except asyncio.CancelledError: pass
+    except Exception as e: logging.warning(f"{self.sanitized_url} failed. Error: {e}")
     finally: self.task = None
 
   @abstractmethod
-- 
2.43.0


From 064c53f2bba6b3bc24eab1982f72af0187f40331 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 62/97] fix: stop the servers when the connection manager ends

---
 streamtasks/system/connection_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 953f317..7dcf73f 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -130,7 +130,7 @@ class ConnectionManager(TaskWebPathHandler):
       for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()
       await self.run_web_server()
     finally:
-      for data in itertools.chain(self._connection_url_data, self._connection_url_data): await data.stop()
+      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()
 
   async def run_web_server(self):
     app = ASGIServer()
-- 
2.43.0


From 946de8e3619b643c27bbd2e174c7923220584c74 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 63/97] fix: refuse a connection or server that is listed
 already without leaving a link behind

---
 streamtasks/system/connection_manager.py | 27 ++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 7dcf73f..d74ec8d 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -13,7 +13,7 @@ from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, WebsocketContext, http_context_handler, websocket_context_handler
 from streamtasks.connection import AutoReconnector, ServerBase, connect, create_server
 from streamtasks.env import NODE_NAME, get_data_sub_dir
-from streamtasks.net import EndpointOrAddress
+from streamtasks.net import EndpointOrAddress, Switch
 from streamtasks.services.constants import NetworkAddressNames
 from streamtasks.system.task_web import PathRegistrationFrontend, TaskWebPathHandler
 import dbm
@@ -28,8 +28,9 @@ T = TypeVar("T", bound=Worker)
 def get_url_node_name(): return re.sub("[^a-zA-Z0-9-_]", "", NODE_NAME().lower())
 
 class UrlData(Generic[T]):
-  def __init__(self, url: str, worker: T, change_trigger: AsyncTrigger) -> None:
+  def __init__(self, url: str, worker: T, switch: Switch, change_trigger: AsyncTrigger) -> None:
     self.url = url
+    self.switch = switch
     self.worker: T = worker
     self.task: asyncio.Task | None = None
     self.change_trigger = change_trigger
@@ -63,7 +64,9 @@ class UrlData(Generic[T]):
 
   async def run(self):
     change_task = asyncio.create_task(self.change_handler())
-    try: await self.worker.run()
+    try:
+      await self.switch.add_link(await self.worker.create_link())
+      await self.worker.run()
     finally: change_task.cancel()
   async def stop(self):
     if self.task is None: return None
@@ -125,8 +128,8 @@ class ConnectionManager(TaskWebPathHandler):
 
   async def run_inner(self):
     try:
-      for url in self.get_connection_urls(): self._connection_url_data.append(await self.create_connection_url_data(url))
-      for url in self.get_server_urls(): self._server_url_data.append(await self.create_server_url_data(url))
+      for url in self.get_connection_urls(): self._connection_url_data.append(self.create_connection_url_data(url))
+      for url in self.get_server_urls(): self._server_url_data.append(self.create_server_url_data(url))
       for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()
       await self.run_web_server()
     finally:
@@ -163,7 +166,7 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
-      data = await self.create_connection_url_data(req.url)
+      data = self.create_connection_url_data(req.url)
       if any(True for connection in self._connection_url_data if connection.id == data.id): return await ctx.respond_status(400)
       data.start()
       self._connection_url_data.append(data)
@@ -189,7 +192,7 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
-      data = await self.create_server_url_data(req.url)
+      data = self.create_server_url_data(req.url)
       if any(True for server in self._server_url_data if server.id == data.id): return await ctx.respond_status(400)
       data.start()
       self._server_url_data.append(data)
@@ -219,12 +222,10 @@ class ConnectionManager(TaskWebPathHandler):
 
     await ASGIAppRunner(self.client, app).run()
 
-  async def create_connection_url_data(self, url: str):
+  def create_connection_url_data(self, url: str):
     w = AutoReconnector(connect_fn=functools.partial(connect, url=url))
-    await self.switch.add_link(await w.create_link())
-    return ConnectionUrlData(url=url, worker=w, change_trigger=self._change_trigger_connections)
+    return ConnectionUrlData(url=url, worker=w, switch=self.switch, change_trigger=self._change_trigger_connections)
 
-  async def create_server_url_data(self, url: str):
+  def create_server_url_data(self, url: str):
     w = create_server(url)
-    await self.switch.add_link(await w.create_link())
-    return ServerUrlData(url=url, worker=w, change_trigger=self._change_trigger_servers)
+    return ServerUrlData(url=url, worker=w, switch=self.switch, change_trigger=self._change_trigger_servers)
-- 
2.43.0


From bd00348a7bb269a6d513a179218d4374c945ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 64/97] fix: refuse urls that can not be connected to, they
 made the lists unreadable

---
 streamtasks/system/connection_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index d74ec8d..57624fa 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -11,7 +11,7 @@ from typing import Generic, TypeVar
 from pydantic import BaseModel, TypeAdapter, ValidationError
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, WebsocketContext, http_context_handler, websocket_context_handler
-from streamtasks.connection import AutoReconnector, ServerBase, connect, create_server
+from streamtasks.connection import AutoReconnector, ServerBase, connect, create_server, extract_connection_data_from_url
 from streamtasks.env import NODE_NAME, get_data_sub_dir
 from streamtasks.net import EndpointOrAddress, Switch
 from streamtasks.services.constants import NetworkAddressNames
@@ -98,6 +98,11 @@ class ConnectionUrlData(UrlData[AutoReconnector]):
       await self.worker.wait_connected(False)
       self.change_trigger.trigger()
 
+def validate_url(url: str):
+  # raises a ValueError if the url can not be used
+  extract_connection_data_from_url(url)
+  urllib.parse.urlparse(url).port
+
 class UrlCreateModel(BaseModel):
   url: str
 
@@ -166,6 +171,7 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
+      validate_url(req.url)
       data = self.create_connection_url_data(req.url)
       if any(True for connection in self._connection_url_data if connection.id == data.id): return await ctx.respond_status(400)
       data.start()
@@ -192,6 +198,7 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
+      validate_url(req.url)
       data = self.create_server_url_data(req.url)
       if any(True for server in self._server_url_data if server.id == data.id): return await ctx.respond_status(400)
       data.start()
-- 
2.43.0


From 9f94a5a5d098a236ac619958e42cd2885aa6af30 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 65/97] fix: tell viewers of the connections about changes made
 while the last is sent

---
 streamtasks/system/connection_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 57624fa..dee24fe 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -207,13 +207,17 @@ class ConnectionManager(TaskWebPathHandler):
       await ctx.respond_json(data.to_json_data())
 
     async def _ws_server_change_handler(ctx: WebsocketContext, receive_disconnect_task: asyncio.Task):
+      changed = self._change_trigger_servers.wait()
       while ctx.connected:
-        await wait_with_dependencies(self._change_trigger_servers.wait(), [receive_disconnect_task])
+        await wait_with_dependencies(changed, [receive_disconnect_task])
+        changed = self._change_trigger_servers.wait() # before sending, so no change is missed
         await ctx.send_message("server")
 
     async def _ws_connection_change_handler(ctx: WebsocketContext, receive_disconnect_task: asyncio.Task):
+      changed = self._change_trigger_connections.wait()
       while ctx.connected:
-        await wait_with_dependencies(self._change_trigger_connections.wait(), [receive_disconnect_task])
+        await wait_with_dependencies(changed, [receive_disconnect_task])
+        changed = self._change_trigger_connections.wait() # before sending, so no change is missed
         await ctx.send_message("connection")
 
     @router.websocket_route("/on-change")
-- 
2.43.0


From 0ce75fe33a70f1e88764754b993ad3c1deb23b71 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 66/97] fix: look up the pages of tasks and task hosts on every
 request

---
 streamtasks/system/task_web.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 8d18942..c5744fc 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -202,8 +202,6 @@ class TaskWebBackend(Worker):
     super().__init__()
     self.task_manager_address_name = task_manager_address_name
     self.address_name = address_name
-    self.task_host_asgi_handlers: dict[str, ASGIHandler] = {}
-    self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
     self.path_registrations: list[PathRegistration] = []
     self.store = TaskWebBackendStore()
@@ -488,16 +486,12 @@ class TaskWebBackend(Worker):
           yield (task_id, task_instance)
 
   async def get_task_host_asgi_handler(self, id: str) -> ASGIHandler:
-    if (router := self.task_host_asgi_handlers.get(id, None)) is None:
-      reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
-      self.task_host_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
+    return self._metadata_to_router(reg.metadata)
 
   async def get_task_asgi_handler(self, id: UUID4) -> ASGIHandler:
-    if (router := self.task_asgi_handlers.get(id, None)) is None:
-      reg: TaskInstance = await self.tm_client.get_task(id)
-      self.task_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskInstance = await self.tm_client.get_task(id)
+    return self._metadata_to_router(reg.metadata)
 
   def _metadata_to_router(self, metadata: MetadataDict) -> ASGIHandler:
     router = ASGIRouter()
-- 
2.43.0


From 8f48b08fe19bf1b0a6484bb2b30db940e0541057 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 67/97] fix: replace a path registration when its handler
 registers again

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index c5744fc..24558a7 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -225,7 +225,7 @@ class TaskWebBackend(Worker):
     @server.route(TaskConstants.FD_TMW_REGISTER_PATH)
     async def _(req: FetchRequest):
       body = PathRegistration.model_validate(req.body)
-      self.path_registrations.append(body)
+      self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id ] + [ body ]
       await req.respond(None)
 
     await server.run()
-- 
2.43.0


From 55a1819e953244f582a983c089955360ca6b643f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 68/97] fix: unregister paths, their ids are not uuids

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 24558a7..80e46a1 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -235,7 +235,7 @@ class TaskWebBackend(Worker):
 
     @server.route(TaskConstants.SD_TMW_UNREGISTER_PATH)
     async def _(message_data: Any):
-      data = ModelWithId.model_validate(message_data)
+      data = ModelWithStrId.model_validate(message_data)
       self.path_registrations = [ reg for reg in self.path_registrations if reg.id != data.id]
 
     await server.run()
-- 
2.43.0


From e14d128b9b3b81e0da14a8a7f7ee8ab10ecf2ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 69/97] fix: show messages with infinite numbers to the viewers
 of a topic

---
 streamtasks/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 956af9c..f87ad75 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -328,6 +328,7 @@ def make_json_serializable(v: Any):
   if isinstance(v, (str, int, bool)) or v is None: return v
   if isinstance(v, float):
     if math.isnan(v): return "NaN"
+    if math.isinf(v): return "Infinity" if v > 0 else "-Infinity"
     else: return v
   if isinstance(v, (bytes, bytearray, memoryview)): return v.hex()
   try: v = dict(v)
-- 
2.43.0


From e592f7978e026197e8cda9569990b549d907c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 70/97] fix: hand out audio chunks as soon as they are complete

---
 streamtasks/media/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 75732a7..c2bc626 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -142,7 +142,7 @@ class AudioChunker:
     current_timestamp = timestamp - self.buffer_size * 1000 // self.sample_rate
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
-    while self.buffer.size > self.chunk_size:
+    while self.buffer.size >= self.chunk_size:
       yield (self.buffer[:self.chunk_size], current_timestamp)
       self.buffer = self.buffer[self.chunk_size:]
       current_timestamp += self.buffer_duration
@@ -163,7 +163,7 @@ class PaddedAudioChunker:
     current_timestamp = timestamp - (self.buffer_size - self.padding) * 1000 // self.sample_rate
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
-    while self.buffer.size > self.process_buffer_size:
+    while self.buffer.size >= self.process_buffer_size:
       yield (self.buffer[:self.process_buffer_size], current_timestamp)
       self.buffer = self.buffer[self.chunk_size:]
       current_timestamp += self.buffer_duration
-- 
2.43.0


From 46d62ae16d824ff8349a244c89e4440bc55996fa Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 71/97] fix: timestamps of audio chunks do not drift within a
 block

---
 streamtasks/media/util.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index c2bc626..4b72a77 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -132,20 +132,19 @@ class AudioChunker:
   def __init__(self, chunk_size: int, sample_rate: int) -> None:
     self.chunk_size = chunk_size
     self.sample_rate = sample_rate
-    self.buffer_duration = 1000 * chunk_size // sample_rate
     self.buffer: np.ndarray | None = None
 
   @property
   def buffer_size(self): return 0 if self.buffer is None else self.buffer.size
 
   def next(self, buf: np.ndarray, timestamp: int):
-    current_timestamp = timestamp - self.buffer_size * 1000 // self.sample_rate
+    offset = -self.buffer_size # of the first buffered sample to the first sample in buf
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
     while self.buffer.size >= self.chunk_size:
-      yield (self.buffer[:self.chunk_size], current_timestamp)
+      yield (self.buffer[:self.chunk_size], timestamp + offset * 1000 // self.sample_rate)
       self.buffer = self.buffer[self.chunk_size:]
-      current_timestamp += self.buffer_duration
+      offset += self.chunk_size
 
 class PaddedAudioChunker:
   def __init__(self, chunk_size: int, sample_rate: int, padding: int) -> None:
@@ -153,20 +152,19 @@ class PaddedAudioChunker:
     self.sample_rate = sample_rate
     self.padding = padding
     self.process_buffer_size = self.chunk_size + 2 * self.padding
-    self.buffer_duration = 1000 * chunk_size // sample_rate
     self.buffer: np.ndarray | None = None
 
   @property
   def buffer_size(self): return 0 if self.buffer is None else self.buffer.size
 
   def next(self, buf: np.ndarray, timestamp: int):
-    current_timestamp = timestamp - (self.buffer_size - self.padding) * 1000 // self.sample_rate
+    offset = self.padding - self.buffer_size # of the first unpadded sample to the first sample in buf
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
     while self.buffer.size >= self.process_buffer_size:
-      yield (self.buffer[:self.process_buffer_size], current_timestamp)
+      yield (self.buffer[:self.process_buffer_size], timestamp + offset * 1000 // self.sample_rate)
       self.buffer = self.buffer[self.chunk_size:]
-      current_timestamp += self.buffer_duration
+      offset += self.chunk_size
 
   def strip_padding(self, buf: np.ndarray): return buf[self.padding:-self.padding]
 
-- 
2.43.0


From 1608062b892c86e462f532dde073c81d528b7142 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 72/97] fix: strip_padding without padding

---
 streamtasks/media/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 4b72a77..814e2fc 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -166,7 +166,7 @@ class PaddedAudioChunker:
       self.buffer = self.buffer[self.chunk_size:]
       offset += self.chunk_size
 
-  def strip_padding(self, buf: np.ndarray): return buf[self.padding:-self.padding]
+  def strip_padding(self, buf: np.ndarray): return buf[self.padding:buf.size - self.padding]
 
 class AudioSmoother:
   def __init__(self, overlap: int) -> None:
-- 
2.43.0


From 1572ccbe2a20faa7ecac62ca89dd036597239902 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 73/97] fix: do not count the overlap of a dropped audio block
 twice

---
 streamtasks/media/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 814e2fc..13388b6 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -243,7 +243,7 @@ class AudioSequencer:
             self._strech_sample_buffer(new_buf_length)
           else:
             self._sample_buffer = np.concatenate((self._sample_buffer, samples[desync_sample_count:]), axis=0)
-          self._desync_time += Fraction(min(desync_sample_count, samples.shape[0]), self._sample_rate)
+          self._desync_time += Fraction(desync_sample_count, self._sample_rate)
         else:
           new_buf_length = self._sample_buffer.shape[0] + desync_sample_count + samples.shape[0]
           if next_sample_count != 0 and new_buf_length / next_sample_count < self._max_stretch_ratio:
-- 
2.43.0


From 9aaff31195fc2103dd396af81c8f87d9e57c1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 74/97] fix: clip the mix of loud audio tracks instead of
 wrapping around

---
 streamtasks/system/tasks/media/audiomixer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 628cfe8..3613890 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -8,7 +8,7 @@ from pydantic import BaseModel, field_validator, ValidationError
 from streamtasks.debugging import ddebug_value
 from streamtasks.client.topic import InTopic, SequentialInTopicSynchronizer
 from streamtasks.env import DEBUG_MIXER
-from streamtasks.media.audio import audio_buffer_to_ndarray
+from streamtasks.media.audio import audio_buffer_to_ndarray, sample_format_to_dtype
 from streamtasks.media.util import AudioSequencer, list_sample_formats
 from streamtasks.net.serialization import RawData
 from streamtasks.message.types import TimestampChuckMessage
@@ -112,10 +112,14 @@ class AudioMixerTask(Task):
       if track.sequencer.started:
         new_samples = track.sequencer.pop_start(target_time, num_sample_counts)
         assert new_samples.shape[0] == num_sample_counts, "wrong amount of samples from sequencer!"
+        if np.issubdtype(new_samples.dtype, np.integer): new_samples = new_samples.astype(np.int64) # leave room for the sum
         if result is not None: result = result + new_samples
         else: result = new_samples
       if track.is_paused: track.sequencer.reset()
 
+    if np.issubdtype(result.dtype, np.integer):
+      dtype = sample_format_to_dtype(self.config.sample_format)
+      result = np.clip(result, np.iinfo(dtype).min, np.iinfo(dtype).max).astype(dtype)
     if result.size != 0:
       await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=round(target_time * 1000), data=result.tobytes("C")).model_dump()))
 
-- 
2.43.0


From 8c471aa5b10a38d6f250d1ab6f6267ccb77a2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 75/97] fix: scaling loud 64 bit audio does not wrap around

---
 streamtasks/system/tasks/media/audiovolumescaler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 8c417bd..c43c587 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -17,7 +17,8 @@ from streamtasks.utils import context_task
 def get_dtype_min_max(dtype: np.dtype):
   if np.issubdtype(dtype, np.integer):
     info = np.iinfo(dtype)
-    return info.min, info.max
+    # samples are scaled as 64 bit floats, which do not have every 64 bit integer
+    return info.min, info.max if info.bits < 64 else np.nextafter(float(info.max), 0)
   else: return (-1, 1)
 
 class AudioVolumeScalerConfigBase(BaseModel):
-- 
2.43.0


From daaf7d6a2434e2112ea98f2ea3042b366f39ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 76/97] fix: scale audio by the scale at the time it arrived

---
 streamtasks/system/tasks/media/audiovolumescaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index c43c587..59da0d8 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -47,7 +47,7 @@ class AudioVolumeScalerTask(SyncTask):
     self.out_topic = self.client.out_topic(config.out_topic)
     self.config = config
     self.scale = config.default_scale
-    self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
+    self.message_queue: queue.Queue[tuple[TimestampChuckMessage, float]] = queue.Queue()
 
   @asynccontextmanager
   async def init(self):
@@ -72,9 +72,9 @@ class AudioVolumeScalerTask(SyncTask):
 
     while not self.stop_event.is_set():
       try:
-        message = self.message_queue.get(timeout=0.5)
+        message, scale = self.message_queue.get(timeout=0.5)
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
-        samples = np.clip(samples * self.scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
+        samples = np.clip(samples * scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
       except queue.Empty: pass
 
@@ -94,7 +94,7 @@ class AudioVolumeScalerTask(SyncTask):
       try:
         data = await self.in_topic.recv_data_control()
         if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
-        else: self.message_queue.put(TimestampChuckMessage.model_validate(data.data))
+        else: self.message_queue.put((TimestampChuckMessage.model_validate(data.data), self.scale))
       except (ValidationError, ValueError): pass
 
 class AudioVolumeScalerTaskHost(TaskHost):
-- 
2.43.0


From 5f21e07dc87076031b4fda12e403b086c1d352b5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 77/97] fix: volume of the loudest negative samples

---
 streamtasks/system/tasks/media/audiovolumemeter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 93627c6..b002257 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -64,7 +64,7 @@ class AudioVolumeMeterTask(SyncTask):
       try:
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64)) / self.max_value))).model_dump()))
       except queue.Empty: pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
-- 
2.43.0


From 5c4e705f4215bc8d621193c376b2a587b3eb04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 78/97] fix: activity of pixels that get brighter

---
 streamtasks/system/tasks/media/videoactivitymeter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 5ca58b0..69501ff 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -60,7 +60,7 @@ class VideoActivityMeterTask(SyncTask):
         message = self.message_queue.get(timeout=timeout)
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
         if last_bitmap is not None:
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap.astype(np.int16) - bitmap).flatten().mean()).model_dump()))
         last_bitmap = bitmap
       except queue.Empty: pass
 
-- 
2.43.0


From 81da35a646ec8f01566871b39f15de2bfb7317fd Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 79/97] fix: unsigned 8 bit audio

---
 streamtasks/media/audio.py                           | 7 +++++--
 streamtasks/system/tasks/media/audiomixer.py         | 6 ++++--
 streamtasks/system/tasks/media/audiovolumemeter.py   | 7 ++++---
 streamtasks/system/tasks/media/audiovolumescaler.py  | 6 ++++--
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 4 ++--
 5 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/streamtasks/media/audio.py b/streamtasks/media/audio.py
index 93ddaf6..8f4b686 100644
--- a/streamtasks/media/audio.py
+++ b/streamtasks/media/audio.py
@@ -23,8 +23,8 @@ _SAMPLE_FORMAT_NP_2_AV_INFO: dict[str, tuple[bool, type[np.dtype]]] = {
   "s32p": (True, np.int32),
   "s64": (False, np.int64),
   "s64p": (True, np.int64),
-  "u8": (False, np.int8),
-  "u8p": (True, np.int8),
+  "u8": (False, np.uint8),
+  "u8p": (True, np.uint8),
 }
 
 def get_audio_bytes_per_time_sample(sample_format: str, channels: int): # time sample != sample, time sample has all channels
@@ -44,6 +44,9 @@ def sample_format_to_dtype(sample_format: str):
   if sample_format not in _SAMPLE_FORMAT_NP_2_AV_INFO: raise ValueError("Invalid sample format!")
   return _SAMPLE_FORMAT_NP_2_AV_INFO[sample_format][1]
 
+def sample_format_zero(sample_format: str): # the value of silence
+  return 128 if sample_format in ("u8", "u8p") else 0
+
 class AudioFrame(Frame[av.AudioFrame]):
   def to_ndarray(self):
     return self.frame.to_ndarray()
diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 3613890..071be28 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -8,7 +8,7 @@ from pydantic import BaseModel, field_validator, ValidationError
 from streamtasks.debugging import ddebug_value
 from streamtasks.client.topic import InTopic, SequentialInTopicSynchronizer
 from streamtasks.env import DEBUG_MIXER
-from streamtasks.media.audio import audio_buffer_to_ndarray, sample_format_to_dtype
+from streamtasks.media.audio import audio_buffer_to_ndarray, sample_format_to_dtype, sample_format_zero
 from streamtasks.media.util import AudioSequencer, list_sample_formats
 from streamtasks.net.serialization import RawData
 from streamtasks.message.types import TimestampChuckMessage
@@ -87,6 +87,8 @@ class AudioMixerTask(Task):
         else:
           message = TimestampChuckMessage.model_validate(data.data)
           samples = audio_buffer_to_ndarray(message.data, self.config.sample_format)[0].reshape((-1, self.config.channels))
+          zero = sample_format_zero(self.config.sample_format)
+          if zero != 0: samples = samples.astype(np.int16) - zero
           if t0 is None: t0 = message.timestamp - 1
           sample_count += samples.shape[0]
           if DEBUG_MIXER():
@@ -119,7 +121,7 @@ class AudioMixerTask(Task):
 
     if np.issubdtype(result.dtype, np.integer):
       dtype = sample_format_to_dtype(self.config.sample_format)
-      result = np.clip(result, np.iinfo(dtype).min, np.iinfo(dtype).max).astype(dtype)
+      result = np.clip(result + sample_format_zero(self.config.sample_format), np.iinfo(dtype).min, np.iinfo(dtype).max).astype(dtype)
     if result.size != 0:
       await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=round(target_time * 1000), data=result.tobytes("C")).model_dump()))
 
diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index b002257..0236fa7 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -2,7 +2,7 @@ from contextlib import asynccontextmanager
 import queue
 from typing import Any
 from pydantic import BaseModel, ValidationError
-from streamtasks.media.audio import audio_buffer_to_ndarray, sample_format_to_dtype
+from streamtasks.media.audio import audio_buffer_to_ndarray, sample_format_to_dtype, sample_format_zero
 from streamtasks.media.util import AudioChunker
 from streamtasks.net.serialization import RawData
 from streamtasks.message.types import NumberMessage, TimestampChuckMessage
@@ -35,7 +35,8 @@ class AudioVolumeMeterTask(SyncTask):
     self.in_topic = self.client.in_topic(config.in_topic)
     self.config = config
     sample_dtype = sample_format_to_dtype(self.config.sample_format)
-    self.max_value = float(max_dtype_value(sample_dtype))
+    self.zero = sample_format_zero(self.config.sample_format)
+    self.max_value = float(max_dtype_value(sample_dtype)) - self.zero
     self.message_queue: queue.Queue[TimestampChuckMessage] = queue.Queue()
 
   @asynccontextmanager
@@ -64,7 +65,7 @@ class AudioVolumeMeterTask(SyncTask):
       try:
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64)) / self.max_value))).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64) - self.zero) / self.max_value))).model_dump()))
       except queue.Empty: pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 59da0d8..2db410f 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -4,7 +4,7 @@ from typing import Any
 import numpy as np
 from pydantic import BaseModel, ValidationError
 from streamtasks.client.topic import SequentialInTopicSynchronizer
-from streamtasks.media.audio import audio_buffer_to_samples, sample_format_to_dtype
+from streamtasks.media.audio import audio_buffer_to_samples, sample_format_to_dtype, sample_format_zero
 from streamtasks.net.serialization import RawData
 from streamtasks.message.types import NumberMessage, TimestampChuckMessage
 from streamtasks.net.messages import TopicControlData
@@ -68,13 +68,15 @@ class AudioVolumeScalerTask(SyncTask):
 
   def run_sync(self):
     samples_dtype = sample_format_to_dtype(self.config.sample_format)
+    zero = sample_format_zero(self.config.sample_format)
     samples_dtype_min_max = get_dtype_min_max(samples_dtype)
 
     while not self.stop_event.is_set():
       try:
         message, scale = self.message_queue.get(timeout=0.5)
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
-        samples = np.clip(samples * scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
+        if zero != 0: samples = samples.astype(np.float64) - zero
+        samples = np.clip(samples * scale + zero, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
       except queue.Empty: pass
 
diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index a941a01..66e6d93 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -3,7 +3,7 @@ import math
 from typing import Any
 import numpy as np
 from pydantic import BaseModel, ValidationError
-from streamtasks.media.audio import audio_buffer_to_ndarray
+from streamtasks.media.audio import audio_buffer_to_ndarray, sample_format_zero
 from streamtasks.media.util import AudioChunker
 from streamtasks.system.configurators import EditorFields, IOTypes, static_configurator
 from streamtasks.system.tasks.media.utils import MediaEditorFields
@@ -41,7 +41,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
       try:
         data = await self.in_topic.recv_data()
         message = TimestampChuckMessage.model_validate(data.data)
-        new_samples = audio_buffer_to_ndarray(message.data, self.config.sample_format)[0]
+        new_samples = audio_buffer_to_ndarray(message.data, self.config.sample_format)[0].astype(np.float64) - sample_format_zero(self.config.sample_format)
         for chunk, _ in chunker.next(new_samples, 0):
           freqs = np.abs(np.fft.fft(chunk)[:chunk.size // 2])
           expected_len = math.ceil(freqs.size / self.config.bin_size) * self.config.bin_size
-- 
2.43.0


From 22a32fb9bc9869b5b248994c415d2445129f4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 80/97] fix: frequency display with a bin size that does not
 divide the spectrum, or with silence

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index 66e6d93..ef1bdb3 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -45,8 +45,8 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
         for chunk, _ in chunker.next(new_samples, 0):
           freqs = np.abs(np.fft.fft(chunk)[:chunk.size // 2])
           expected_len = math.ceil(freqs.size / self.config.bin_size) * self.config.bin_size
-          freq_bins = np.pad(freqs, (expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
-          freq_bins = freq_bins / freq_bins.max()
+          freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
+          if freq_bins.max() > 0: freq_bins = freq_bins / freq_bins.max()
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
       except ValidationError: pass
 
-- 
2.43.0


From d150335ce007928b719019ddbda7f18f096167cb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 81/97] fix: fractional frame rates

---
 streamtasks/media/container.py                     | 2 +-
 streamtasks/media/video.py                         | 2 +-
 streamtasks/system/tasks/media/videoreformatter.py | 4 +++-
 streamtasks/utils.py                               | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index b63ffde..df85709 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -172,7 +172,7 @@ class OutputContainer:
   def add_video_stream(self, codec_info: VideoCodecInfo):
     time_base = codec_info.time_base
     if time_base is None: raise ValueError("time_base must not be None")
-    stream = self._container.add_stream(codec_name=codec_info.codec, rate=codec_info.frame_rate, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
+    stream = self._container.add_stream(codec_name=codec_info.codec, rate=1 / time_base, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
     return AVOutputStream(self._ctx, time_base, stream)
 
   def add_audio_stream(self, codec_info: AudioCodecInfo):
diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index da0150c..40c7465 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -92,7 +92,7 @@ class VideoCodecInfo(CodecInfo[VideoFrame]):
     if mode not in ('r', 'w'): raise ValueError(f'Invalid mode: {mode}. Must be "r" or "w".')
     ctx: av.video.codeccontext.VideoCodecContext = av.video.codeccontext.VideoCodecContext.create(self.codec, mode)
     ctx.format = self.to_av_format()
-    ctx.framerate = self.frame_rate
+    ctx.framerate = 1 / self.time_base
 
     apply_options_to_codec_context(ctx, self.options)
 
diff --git a/streamtasks/system/tasks/media/videoreformatter.py b/streamtasks/system/tasks/media/videoreformatter.py
index fb7aa7c..1eb55c0 100644
--- a/streamtasks/system/tasks/media/videoreformatter.py
+++ b/streamtasks/system/tasks/media/videoreformatter.py
@@ -9,6 +9,7 @@ from streamtasks.system.tasks.media.utils import MediaEditorFields
 from streamtasks.system.configurators import IOTypes, static_configurator
 from streamtasks.system.task import Task, TaskHost
 from streamtasks.client import Client
+from streamtasks.utils import hertz_to_fintervall
 
 class VideoReformatterConfigBase(BaseModel):
   in_pixel_format: IOTypes.PixelFormat = "bgr24"
@@ -31,6 +32,7 @@ class VideoReformatterTask(Task):
     self.in_topic = self.client.in_topic(config.in_topic)
     self.out_topic = self.client.out_topic(config.out_topic)
     self.config = config
+    self.in_time_base = hertz_to_fintervall(config.in_rate)
     self.reformatter = VideoReformatter(
       VideoReformatterInfo(self.config.out_rate, self.config.out_pixel_format, self.config.out_width, self.config.out_height),
       VideoReformatterInfo(self.config.in_rate, self.config.in_pixel_format, self.config.in_width, self.config.in_height),
@@ -48,7 +50,7 @@ class VideoReformatterTask(Task):
             message = TimestampChuckMessage.model_validate(data.data)
             if t0 is None: t0 = message.timestamp
             frame = VideoFrame.from_buffer(message.data, self.config.in_width, self.config.in_height, self.config.in_pixel_format)
-            frame.set_ts(Fraction(message.timestamp - t0, 1000), Fraction(1, self.config.in_rate))
+            frame.set_ts(Fraction(message.timestamp - t0, 1000), self.in_time_base)
             for nframe in await self.reformatter.reformat(frame):
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=int(nframe.dtime * 1000) + t0, data=nframe.to_bytes()).model_dump()))
         except (ValidationError, ValueError): pass
diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index f87ad75..ce5582e 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -338,4 +338,4 @@ def make_json_serializable(v: Any):
   if isinstance(v, list): return [ make_json_serializable(v) for v in v ]
   return repr(v)
 
-def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else Fraction(1 / f)
+def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else Fraction(1 / f).limit_denominator(1000000) # small enough for av
-- 
2.43.0


From 45d1971247ba3985c761aadc7d96fbe4bc4e1310 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 82/97] fix: frames with timestamps in milliseconds do not fall
 on the same tick

---
 streamtasks/media/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/codec.py b/streamtasks/media/codec.py
index ef9bfc3..69f6835 100644
--- a/streamtasks/media/codec.py
+++ b/streamtasks/media/codec.py
@@ -27,7 +27,7 @@ class Frame(ABC, Generic[T]):
     else: return self.frame.time_base * self.frame.pts
 
   def set_ts(self, time: Fraction, time_base: Fraction):
-    ts = int(time / time_base)
+    ts = round(time / time_base)
     self.frame.time_base = time_base
     self.frame.dts = ts
     self.frame.pts = ts
-- 
2.43.0


From 0ffb71e076729cd3974ad732f4e048147abcf938 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 83/97] fix: packets keep their decoding time, also when it is
 zero

---
 streamtasks/media/packet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/media/packet.py b/streamtasks/media/packet.py
index b3caefe..4e16f09 100644
--- a/streamtasks/media/packet.py
+++ b/streamtasks/media/packet.py
@@ -27,10 +27,10 @@ class MediaPacket:
   @staticmethod
   def from_av_packet(packet: av.Packet, time_base: Fraction):
     if packet.time_base is None or packet.pts is None: raise ValueError("Expected time_base and pts on av.Packet!")
-    time_base_factor = float(packet.time_base / time_base)
-    rel_dts = int((packet.pts - (packet.dts or packet.pts)) * time_base_factor)
-    pts = int(packet.pts * time_base_factor)
-    return MediaPacket(bytes(packet), pts, rel_dts, packet.is_keyframe)
+    time_base_factor = packet.time_base / time_base
+    pts = round(packet.pts * time_base_factor)
+    dts = pts if packet.dts is None else round(packet.dts * time_base_factor)
+    return MediaPacket(bytes(packet), pts, pts - dts, packet.is_keyframe)
 
 class MediaMessage(TimestampMessage):
   packet: MediaPacket
-- 
2.43.0


From 0b17b0ddeb0d18489ccc28c72a55a42633fb79d3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 84/97] fix: a corrupt or empty packet ends no decoder

---
 streamtasks/media/codec.py                     | 1 +
 streamtasks/system/tasks/media/audiodecoder.py | 5 +++--
 streamtasks/system/tasks/media/videodecoder.py | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/streamtasks/media/codec.py b/streamtasks/media/codec.py
index 69f6835..69065b2 100644
--- a/streamtasks/media/codec.py
+++ b/streamtasks/media/codec.py
@@ -80,6 +80,7 @@ class Decoder(Generic[F]):
     self.time_base = codec_info.time_base
 
   async def decode(self, packet: MediaPacket) -> list[F]:
+    if len(packet.data) == 0: return [] # an empty packet would be the end of the stream for the decoder
     loop = asyncio.get_running_loop()
     av_packet = packet.to_av_packet(self.time_base)
     frames = await loop.run_in_executor(None, self._decode, av_packet)
diff --git a/streamtasks/system/tasks/media/audiodecoder.py b/streamtasks/system/tasks/media/audiodecoder.py
index ec09aaa..c44b3e5 100644
--- a/streamtasks/system/tasks/media/audiodecoder.py
+++ b/streamtasks/system/tasks/media/audiodecoder.py
@@ -1,4 +1,5 @@
 from typing import Any
+import av
 from pydantic import BaseModel, ValidationError
 from streamtasks.debugging import ddebug_value
 from streamtasks.env import DEBUG_MEDIA
@@ -48,13 +49,13 @@ class AudioDecoderTask(Task):
           try:
             data = await self.in_topic.recv_data()
             message = MediaMessage.model_validate(data.data)
-            if self.t0 is None: self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)
             frames: list[AudioFrame] = await self.decoder.decode(message.packet)
+            if self.t0 is None and len(frames) > 0: self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)
             frames = await self.resampler.reformat_all(frames)
             for frame in frames: # TODO: endianness
               if DEBUG_MEDIA(): ddebug_value("decoder dtime", float(frame.dtime))
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=frame.to_ndarray().tobytes("C")).model_dump()))
-          except ValidationError: pass
+          except (ValidationError, ValueError, OverflowError, av.FFmpegError): pass
     finally:
       self.decoder.close()
 
diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index b6528de..d87626a 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -1,4 +1,5 @@
 from typing import Any
+import av
 from pydantic import BaseModel, ValidationError
 from streamtasks.media.video import VideoCodecInfo, VideoFrame
 from streamtasks.net.serialization import RawData
@@ -50,12 +51,12 @@ class VideoDecoderTask(Task):
           try:
             data = await self.in_topic.recv_data()
             message = MediaMessage.model_validate(data.data)
-            if self.t0 is None: self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)
             frames: list[VideoFrame] = await self.decoder.decode(message.packet)
+            if self.t0 is None and len(frames) > 0: self.t0 = message.timestamp - int(message.packet.dts * self.time_base * 1000)
             for frame in frames: # TODO: endianness
               bitmap = frame.convert(width=self.config.width, height=self.config.height, pixel_format=self.config.out_pixel_format).to_ndarray()
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=bitmap.tobytes("C")).model_dump()))
-          except ValidationError: pass
+          except (ValidationError, ValueError, OverflowError, av.FFmpegError): pass
     finally:
       self.decoder.close()
 
-- 
2.43.0


From e564018be0cb838162b6677e9625b81e7a53cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 85/97] fix: media of the wrong size ends no task

---
 streamtasks/system/tasks/media/audioencoder.py       | 4 ++--
 streamtasks/system/tasks/media/audiomixer.py         | 2 +-
 streamtasks/system/tasks/media/audiooutput.py        | 2 +-
 streamtasks/system/tasks/media/audioresampler.py     | 4 ++--
 streamtasks/system/tasks/media/audiovolumemeter.py   | 2 +-
 streamtasks/system/tasks/media/audiovolumescaler.py  | 2 +-
 streamtasks/system/tasks/media/videoactivitymeter.py | 4 ++--
 streamtasks/system/tasks/media/videoencoder.py       | 4 ++--
 streamtasks/system/tasks/media/videolayout.py        | 3 ++-
 streamtasks/system/tasks/media/videomixer.py         | 6 ++++--
 streamtasks/system/tasks/media/videoreformatter.py   | 4 ++--
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 12 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/streamtasks/system/tasks/media/audioencoder.py b/streamtasks/system/tasks/media/audioencoder.py
index ab220ad..b34883a 100644
--- a/streamtasks/system/tasks/media/audioencoder.py
+++ b/streamtasks/system/tasks/media/audioencoder.py
@@ -62,14 +62,14 @@ class AudioEncoderTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.frame_data_queue.get(timeout=timeout)
-        if self.t0 is None: self.t0 = message.timestamp
         frame = AudioFrame.from_buffer(message.data, self.config.in_sample_format, self.config.channels, self.config.rate)
+        if self.t0 is None: self.t0 = message.timestamp
         frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
         packets = self.encoder.encode_sync(frame)
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
         self.frame_data_queue.task_done()
-      except queue.Empty: pass
+      except (queue.Empty, ValueError, OverflowError): pass
 
 class AudioEncoderTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 071be28..57babce 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -96,7 +96,7 @@ class AudioMixerTask(Task):
             ddebug_value("track sample rate", id(track.sequencer), sample_count * 1000 / (message.timestamp - t0))
           track.sequencer.insert(Fraction(message.timestamp, 1000), samples)
           await self.send_next()
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
   async def send_next(self):
     if any(True for track in self.audio_tracks if not track.is_paused and not track.sequencer.started): return # not ready yet
diff --git a/streamtasks/system/tasks/media/audiooutput.py b/streamtasks/system/tasks/media/audiooutput.py
index 5eebf72..cd2f8e5 100644
--- a/streamtasks/system/tasks/media/audiooutput.py
+++ b/streamtasks/system/tasks/media/audiooutput.py
@@ -57,7 +57,7 @@ class AudioOutputTask(SyncTask):
         try:
           message = self.message_queue.get(timeout=0.5)
           stream.write(message.data)
-        except queue.Empty: pass
+        except (queue.Empty, ValueError): pass
     finally: stream.close()
 
 class AudioOutputTaskHost(TaskHost):
diff --git a/streamtasks/system/tasks/media/audioresampler.py b/streamtasks/system/tasks/media/audioresampler.py
index 2f2f45a..d0383cb 100644
--- a/streamtasks/system/tasks/media/audioresampler.py
+++ b/streamtasks/system/tasks/media/audioresampler.py
@@ -44,12 +44,12 @@ class AudioResamplerTask(Task):
           if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
           else:
             message = TimestampChuckMessage.model_validate(data.data)
-            if t0 is None: t0 = message.timestamp
             frame = AudioFrame.from_buffer(message.data, self.config.in_sample_format, self.config.in_channels, self.config.in_rate)
+            if t0 is None: t0 = message.timestamp
             frame.set_ts(Fraction(message.timestamp - t0, 1000), Fraction(1, self.config.in_rate))
             for nframe in await self.resampler.reformat(frame):
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=int(nframe.dtime * 1000) + t0, data=nframe.to_bytes()).model_dump()))
-        except (ValidationError, ValueError): pass
+        except (ValidationError, ValueError, OverflowError): pass
 
 class AudioResamplerTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 0236fa7..91b04b0 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -66,7 +66,7 @@ class AudioVolumeMeterTask(SyncTask):
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
           self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64) - self.zero) / self.max_value))).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 2db410f..9e66b1f 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -78,7 +78,7 @@ class AudioVolumeScalerTask(SyncTask):
         if zero != 0: samples = samples.astype(np.float64) - zero
         samples = np.clip(samples * scale + zero, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
   async def _run_recv_scale(self):
     while True:
diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 69501ff..f5221ac 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -59,10 +59,10 @@ class VideoActivityMeterTask(SyncTask):
       try:
         message = self.message_queue.get(timeout=timeout)
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
-        if last_bitmap is not None:
+        if last_bitmap is not None and last_bitmap.shape == bitmap.shape:
           self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap.astype(np.int16) - bitmap).flatten().mean()).model_dump()))
         last_bitmap = bitmap
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoActivityMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/videoencoder.py b/streamtasks/system/tasks/media/videoencoder.py
index 3e9fccb..907dc3e 100644
--- a/streamtasks/system/tasks/media/videoencoder.py
+++ b/streamtasks/system/tasks/media/videoencoder.py
@@ -69,15 +69,15 @@ class VideoEncoderTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.frame_data_queue.get(timeout=timeout)
-        if self.t0 is None: self.t0 = message.timestamp
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
         frame = VideoFrame.from_ndarray(bitmap, self.config.in_pixel_format)
+        if self.t0 is None: self.t0 = message.timestamp
         frame.set_ts(Fraction(message.timestamp - self.t0, 1000), self.time_base)
         packets = self.encoder.encode_sync(frame)
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
         self.frame_data_queue.task_done()
-      except queue.Empty: pass
+      except (queue.Empty, ValueError, OverflowError): pass
 
 class VideoEncoderTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/videolayout.py b/streamtasks/system/tasks/media/videolayout.py
index 36344db..ddd231e 100644
--- a/streamtasks/system/tasks/media/videolayout.py
+++ b/streamtasks/system/tasks/media/videolayout.py
@@ -82,13 +82,14 @@ class VideoLayoutTask(SyncTask):
       try:
         message = self.message_queue.get(timeout=timeout)
         arr = video_buffer_to_ndarray(message.data, self.config.in_width, self.config.in_height)
+        if arr.ndim != 3 or arr.shape[2] != 4: raise ValueError("Expected 4 channels!")
         arr = cv2.resize(arr, (self.config.place_width, self.config.place_height), interpolation=cv2.INTER_LINEAR)
         arr = arr[:self.config.apply_height,:self.config.apply_width,:]
         assert arr.dtype == np.uint8, "not uint8"
         out_data = np.zeros((self.config.out_height, self.config.out_width, 4), dtype=np.uint8)
         out_data[self.config.place_top_offset:self.config.place_top_offset + arr.shape[0], self.config.place_left_offset:self.config.place_left_offset + arr.shape[1]] = arr
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=out_data.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoLayoutTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index d97ab30..028160d 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -105,10 +105,12 @@ class VideoMixerTask(SyncTask):
         data = await track.topic.recv_data_control()
         if isinstance(data, TopicControlData): track.last_message = None
         else:
+          message = TimestampChuckMessage.model_validate(data.data)
+          if len(message.data) != self.config.width * self.config.height * 4: raise ValueError("Invalid frame size!")
           if last_frame_count == self.frame_count: self.submit_job()
-          track.last_message = TimestampChuckMessage.model_validate(data.data)
+          track.last_message = message
           last_frame_count = self.frame_count
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
   def submit_job(self):
     self.frame_count += 1
diff --git a/streamtasks/system/tasks/media/videoreformatter.py b/streamtasks/system/tasks/media/videoreformatter.py
index 1eb55c0..0e91aa8 100644
--- a/streamtasks/system/tasks/media/videoreformatter.py
+++ b/streamtasks/system/tasks/media/videoreformatter.py
@@ -48,12 +48,12 @@ class VideoReformatterTask(Task):
           if isinstance(data, TopicControlData): await self.out_topic.set_paused(data.paused)
           else:
             message = TimestampChuckMessage.model_validate(data.data)
-            if t0 is None: t0 = message.timestamp
             frame = VideoFrame.from_buffer(message.data, self.config.in_width, self.config.in_height, self.config.in_pixel_format)
+            if t0 is None: t0 = message.timestamp
             frame.set_ts(Fraction(message.timestamp - t0, 1000), self.in_time_base)
             for nframe in await self.reformatter.reformat(frame):
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=int(nframe.dtime * 1000) + t0, data=nframe.to_bytes()).model_dump()))
-        except (ValidationError, ValueError): pass
+        except (ValidationError, ValueError, OverflowError): pass
 
 class VideoReformatterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index ef1bdb3..5f92020 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -48,7 +48,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
           freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
           if freq_bins.max() > 0: freq_bins = freq_bins / freq_bins.max()
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
 class AudioFrequencyDisplayTaskHost(TaskHost):
   @property
-- 
2.43.0


From e396f738ad349a03273ce1707ef92440000ac987 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 86/97] fix: merge_images stays within images whose size is no
 multiple of a pixel

---
 streamtasks/media/video_perf_all.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/video_perf_all.cpp b/streamtasks/media/video_perf_all.cpp
index ce8c713..f646168 100644
--- a/streamtasks/media/video_perf_all.cpp
+++ b/streamtasks/media/video_perf_all.cpp
@@ -22,7 +22,7 @@ py::bytes merge_images(std::vector<py::bytes> images, bool alpha_front) {
     std::string out_str(image_size, '\0');
     uint8_t* out_data = (uint8_t*)out_str.data();
 
-    for (size_t offset = 0; offset < image_size; offset += ALPHA_PIXEL_SIZE)
+    for (size_t offset = 0; offset + ALPHA_PIXEL_SIZE <= image_size; offset += ALPHA_PIXEL_SIZE)
     {
         uint8_t* out_cv;
         if (alpha_front) 
-- 
2.43.0


From 639bac8109d34b0cd102b0ba60c9f1b0779566fc Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 87/97] fix: the video mixer uses its background color

---
 streamtasks/system/tasks/media/videomixer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index 028160d..904edc7 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -123,10 +123,11 @@ class VideoMixerTask(SyncTask):
 
   def run_sync(self):
     timeout = 2 / self.config.rate
+    background = self.config.bgcolor.tobytes() * (self.config.width * self.config.height)
     while not self.stop_event.is_set():
       try:
         job = self.job_queue.get(timeout=timeout)
-        result = merge_images([ frame for frame in job.frames ], self.config.alpha_front)
+        result = merge_images([ background, *job.frames ], self.config.alpha_front)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=job.timestamp, data=result).model_dump()))
       except queue.Empty: pass
 
-- 
2.43.0


From 914c1ea98aa596b7ee178b5223ddbce0fbd7c83d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 00:56:07 +0000
Subject: [PATCH 88/97] fix: a paused track holds the other tracks of an output
 container back no longer

---
 streamtasks/media/container.py                    | 3 +++
 streamtasks/system/tasks/media/outputcontainer.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index df85709..7de4d13 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -1,6 +1,7 @@
 import dataclasses
 from fractions import Fraction
 import functools
+import math
 from typing import BinaryIO
 import av.container
 import av.stream
@@ -131,6 +132,8 @@ class AVOutputStream:
     self._dts_counter = max(self._dts_counter, int(duration / self._time_base))
     self._ctx.set_sync_channel_time(self._sync_channel, self.duration)
 
+  def skip_to(self, duration: Fraction): self.duration = self._time_base * math.ceil(duration / self._time_base)
+
   @property
   def ready_for_packet(self): return self._ctx.is_min(self._sync_channel)
 
diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index b9362e2..61201df 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -93,7 +93,7 @@ class OutputContainerSynchronizer(InTopicSynchronizer):
 
     for other_topic_id, other_stream in self._streams.items():
       if other_topic_id not in self.topic_timestamps:
-        other_stream.duration = duration
+        other_stream.skip_to(stream.duration) # NOTE: must not be behind this stream, it would wait until the other one is resumed
 
     if DEBUG_MEDIA() and drop:
       self._oc_dropped_packets += 1
-- 
2.43.0


From 442f6fcb4272a886aa9b1ba20f4a372d24d2b276 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 89/97] fix: a malformed packet ends no output container and no
 viewer

---
 streamtasks/system/tasks/media/outputcontainer.py | 4 ++--
 streamtasks/system/tasks/ui/videoviewer.py        | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index 61201df..2bf7dc6 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -129,10 +129,10 @@ class OutputContainerTask(Task):
           data = await in_topic.recv_data()
           message = MediaMessage.model_validate(data.data)
           if DEBUG_MEDIA(): ddebug_value("out", stream._stream.type, message.timestamp)
+          if message.packet.rel_dts < 0: continue
           if self._t0 is None: self._t0 = message.timestamp
           await stream.mux(message.packet)
-          assert message.packet.rel_dts >= 0, "rel dts must be greater >= 0"
-        except ValidationError: pass
+        except (ValidationError, OverflowError): pass
 
   async def run(self):
     try:
diff --git a/streamtasks/system/tasks/ui/videoviewer.py b/streamtasks/system/tasks/ui/videoviewer.py
index fc1648b..5466382 100644
--- a/streamtasks/system/tasks/ui/videoviewer.py
+++ b/streamtasks/system/tasks/ui/videoviewer.py
@@ -70,13 +70,14 @@ class VideoViewerTask(Task):
             try:
               data: RawData = await wait_with_dependencies(in_topic.recv_data(), [receive_disconnect_task])
               message = MediaMessage.model_validate(data.data)
+              if message.packet.rel_dts < 0: continue
               await video_stream.mux(message.packet)
               if buffer.tell() > 0:
                 chunk = buffer.getvalue()
                 buffer.seek(0, os.SEEK_SET)
                 buffer.truncate()
                 await ctx.send_message(chunk)
-            except ValidationError: pass
+            except (ValidationError, OverflowError): pass
         finally:
           await container.close()
           receive_disconnect_task.cancel()
-- 
2.43.0


From 2408b29d07b8f47f6b93dcb760fd9b4814088db4 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 90/97] fix: an ASGI connection loses no event when two wait
 for one

---
 streamtasks/asgi.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index b164ced..c5b851d 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -161,19 +161,21 @@ class ASGIAppRunner:
     sender = ASGIEventSender(self._client, config.remote_endpoint)
 
     recv_queue = asyncio.Queue()
+    recv_lock = asyncio.Lock()
 
     async def send(event: dict):
       await sender.send(event)
       await asyncio.sleep(0)
 
     async def receive() -> dict:
-      while recv_queue.empty() and not stop_signal.is_set():
-        data = await receiver.get()
-        for event in data.events:
-          event = MessagePackValueTransformer.deannotate_value(event)
-          await recv_queue.put(event)
-      await asyncio.sleep(0)
-      return await recv_queue.get()
+      async with recv_lock: # NOTE: only one may wait at a time, otherwise the others would wait for a queue that is not filled
+        while recv_queue.empty() and not stop_signal.is_set():
+          data = await receiver.get()
+          for event in data.events:
+            event = MessagePackValueTransformer.deannotate_value(event)
+            await recv_queue.put(event)
+        await asyncio.sleep(0)
+        return await recv_queue.get()
 
     async def run():
       try:
-- 
2.43.0


From 203e3f2f8cc900111ae6ddc3c24033b26a37cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 91/97] fix: u8 samples are unsigned

---
 streamtasks/system/tasks/media/pa_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/pa_utils.py b/streamtasks/system/tasks/media/pa_utils.py
index 5934564..ea11766 100644
--- a/streamtasks/system/tasks/media/pa_utils.py
+++ b/streamtasks/system/tasks/media/pa_utils.py
@@ -1,6 +1,6 @@
 SAMPLE_FORMAT_2_PA_TYPE: dict[str, int] = {
   "flt": "float32",
-  "u8": "int8",
+  "u8": "uint8",
   "s16": "int16",
   "s32": "int32",
 }
-- 
2.43.0


From ad4c6888fae195086efd7c91ca40841003cdfd24 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 92/97] fix: a microphone that fails is closed

---
 streamtasks/system/tasks/media/audioinput.py | 23 ++++++++++----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/streamtasks/system/tasks/media/audioinput.py b/streamtasks/system/tasks/media/audioinput.py
index f2d3781..6d280af 100644
--- a/streamtasks/system/tasks/media/audioinput.py
+++ b/streamtasks/system/tasks/media/audioinput.py
@@ -44,18 +44,19 @@ class AudioInputTask(SyncTask):
       device=device,
       channels=self.config.channels,
       dtype=SAMPLE_FORMAT_2_PA_TYPE[self.config.sample_format])
-    stream.start()
-    min_next_timestamp = 0
+    try:
+      stream.start()
+      min_next_timestamp = 0
 
-    while not self.stop_event.is_set():
-      data, _ = stream.read(self.config.buffer_size)
-      data = bytes(data)
-      timestamp = max(get_timestamp_ms(), min_next_timestamp)
-      frame_duration = len(data) * 1000 // self.bytes_per_second
-      min_next_timestamp = timestamp + frame_duration
-      self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=data).model_dump()))
-
-    stream.close()
+      while not self.stop_event.is_set():
+        data, _ = stream.read(self.config.buffer_size)
+        data = bytes(data)
+        timestamp = max(get_timestamp_ms(), min_next_timestamp)
+        frame_duration = len(data) * 1000 // self.bytes_per_second
+        min_next_timestamp = timestamp + frame_duration
+        self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=data).model_dump()))
+    finally:
+      stream.close()
 
 class AudioInputTaskHost(TaskHost):
   @property
-- 
2.43.0


From 3ee45db8857314cbbe8eddd77e6fdb84988a7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:35:24 +0000
Subject: [PATCH 93/97] fix: a screen capture takes the configured region

---
 streamtasks/system/tasks/media/screencapture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/screencapture.py b/streamtasks/system/tasks/media/screencapture.py
index ed58ffd..6a664c4 100644
--- a/streamtasks/system/tasks/media/screencapture.py
+++ b/streamtasks/system/tasks/media/screencapture.py
@@ -45,7 +45,7 @@ class ScreenCaptureTask(SyncTask):
       while not self.stop_event.is_set():
         wait_dur = ((frame_count + 1) * frame_time + start_time) - time.time()
         if wait_dur > 0: time.sleep(wait_dur)
-        img = sct.grab((self.config.left_offset, self.config.top_offset, self.config.width, self.config.height))
+        img = sct.grab({ "left": self.config.left_offset, "top": self.config.top_offset, "width": self.config.width, "height": self.config.height }) # NOTE: a tuple would be (left, top, right, bottom)
         if self.config.set_alpha != 0:
           arr = np.ndarray((self.config.height* self.config.width, 4), dtype=np.uint8, buffer=memoryview(img.raw))
           arr[:,3] = self.config.set_alpha
-- 
2.43.0


From 416b69a72679c578c7bbd4e77efbffebfa26b22d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 94/97] fix: speech enhancement keeps silence silent

---
 streamtasks/system/tasks/inference/smespeechenhancement.py     | 3 ++-
 .../system/tasks/inference/waveformspeechenhancement.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/inference/smespeechenhancement.py b/streamtasks/system/tasks/inference/smespeechenhancement.py
index 8568a61..3a7a3b8 100644
--- a/streamtasks/system/tasks/inference/smespeechenhancement.py
+++ b/streamtasks/system/tasks/inference/smespeechenhancement.py
@@ -67,7 +67,8 @@ class SMESpeechEnhancementTask(SyncTask):
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, "flt")[0], message.timestamp):
           samples = torch.from_numpy(chunk.reshape((1, -1)).copy())
           result: torch.Tensor = model.enhance_batch(samples, torch.tensor([1.])).flatten()
-          result = result * (np.abs(chunk).mean() / result.abs().mean().item()) # scale to prevent volume changes
+          volume = result.abs().mean().item()
+          if volume > 0: result = result * (np.abs(chunk).mean() / volume) # scale to prevent volume changes
           out_samples: np.ndarray = chunker.strip_padding(decracker.smooth(result.cpu().numpy()))
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=out_samples.tobytes("C")).model_dump()))
       except queue.Empty: pass
diff --git a/streamtasks/system/tasks/inference/waveformspeechenhancement.py b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
index 85fb21a..e64f016 100644
--- a/streamtasks/system/tasks/inference/waveformspeechenhancement.py
+++ b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
@@ -67,7 +67,8 @@ class WaveformSpeechEnhancementTask(SyncTask):
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, "flt")[0], message.timestamp):
           samples = torch.from_numpy(chunk.reshape((1, -1)).copy())
           result: torch.Tensor = model.enhance_batch(samples, torch.tensor([1.])).flatten()
-          result = result * (np.abs(chunk).mean() / result.abs().mean().item()) # scale to prevent volume changes
+          volume = result.abs().mean().item()
+          if volume > 0: result = result * (np.abs(chunk).mean() / volume) # scale to prevent volume changes
           out_samples: np.ndarray = chunker.strip_padding(decracker.smooth(result.cpu().numpy()))
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=out_samples.tobytes("C")).model_dump()))
       except queue.Empty: pass
-- 
2.43.0


From bd06122b98e35b13febfa4311200a374867751f3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 95/97] fix: audio of the wrong size ends no speech task

---
 streamtasks/system/tasks/inference/asrspeechrecognition.py      | 2 +-
 streamtasks/system/tasks/inference/smespeechenhancement.py      | 2 +-
 streamtasks/system/tasks/inference/waveformspeechenhancement.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/inference/asrspeechrecognition.py b/streamtasks/system/tasks/inference/asrspeechrecognition.py
index 4465e7f..4090566 100644
--- a/streamtasks/system/tasks/inference/asrspeechrecognition.py
+++ b/streamtasks/system/tasks/inference/asrspeechrecognition.py
@@ -66,7 +66,7 @@ class ASRSpeechRecognitionTask(SyncTask):
             samples = torch.from_numpy(chunk.reshape((1, -1)).copy())
             result: list[str] = model.transcribe_chunk(streaming_context, samples)
             if len(result[0]) > 0: self.send_data(self.out_topic, RawData(TextMessage(timestamp=timestamp, value=result[0].lower()).model_dump()))
-        except queue.Empty: pass
+        except (queue.Empty, ValueError): pass
     finally:
       if model: del model
 
diff --git a/streamtasks/system/tasks/inference/smespeechenhancement.py b/streamtasks/system/tasks/inference/smespeechenhancement.py
index 3a7a3b8..efd7c86 100644
--- a/streamtasks/system/tasks/inference/smespeechenhancement.py
+++ b/streamtasks/system/tasks/inference/smespeechenhancement.py
@@ -71,7 +71,7 @@ class SMESpeechEnhancementTask(SyncTask):
           if volume > 0: result = result * (np.abs(chunk).mean() / volume) # scale to prevent volume changes
           out_samples: np.ndarray = chunker.strip_padding(decracker.smooth(result.cpu().numpy()))
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=out_samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class SMESpeechEnhancementTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/inference/waveformspeechenhancement.py b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
index e64f016..cef7ccc 100644
--- a/streamtasks/system/tasks/inference/waveformspeechenhancement.py
+++ b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
@@ -71,7 +71,7 @@ class WaveformSpeechEnhancementTask(SyncTask):
           if volume > 0: result = result * (np.abs(chunk).mean() / volume) # scale to prevent volume changes
           out_samples: np.ndarray = chunker.strip_padding(decracker.smooth(result.cpu().numpy()))
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=out_samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class WaveformSpeechEnhancementTaskHost(TaskHost):
   @property
-- 
2.43.0


From a3cd6befcb452d07d921e90e73645dade89d0e1b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 96/97] fix: the sentences of a spoken text follow each other

---
 streamtasks/system/tasks/inference/fastspeech2tts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/inference/fastspeech2tts.py b/streamtasks/system/tasks/inference/fastspeech2tts.py
index 3eef5fc..7afb515 100644
--- a/streamtasks/system/tasks/inference/fastspeech2tts.py
+++ b/streamtasks/system/tasks/inference/fastspeech2tts.py
@@ -77,12 +77,12 @@ class FastSpeech2TTSTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=0.5)
-        current_timestamp = message.timestamp
+        sample_count = 0
         for sentence in split_sentences(message.value, 200):
           mel_output, _, _, _ = fastspeech2.encode_text([sentence], pace=self.config.pace, pitch_rate=self.config.pitch, energy_rate=1.0)
           samples: np.ndarray = hifi_gan.decode_batch(mel_output).cpu().numpy().flatten()
-          self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
-          current_timestamp += samples.size * 1000 / _SAMPLE_RATE
+          self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp + sample_count * 1000 // _SAMPLE_RATE, data=samples.tobytes("C")).model_dump()))
+          sample_count += samples.size
       except (queue.Empty, RuntimeError): pass
 
 class FastSpeech2TTSTaskHost(TaskHost):
-- 
2.43.0


From 3a7f93a2263c462da0b28535f8222870b8f11c95 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 97/97] fix: a speech recognition that cannot load its model
 reports why

---
 streamtasks/system/tasks/inference/asrspeechrecognition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/inference/asrspeechrecognition.py b/streamtasks/system/tasks/inference/asrspeechrecognition.py
index 4090566..75bc3f1 100644
--- a/streamtasks/system/tasks/inference/asrspeechrecognition.py
+++ b/streamtasks/system/tasks/inference/asrspeechrecognition.py
@@ -52,6 +52,7 @@ class ASRSpeechRecognitionTask(SyncTask):
       except (ValidationError, ValueError): pass
 
   def run_sync(self):
+    model = None
     try:
       model = StreamingASR.from_hparams(self.config.source, savedir=get_model_data_dir(self.config.source), run_opts={ "device":self.config.device })
       if model is None: raise FileNotFoundError("The model could not be loaded from the specified source!")
-- 
2.43.0

