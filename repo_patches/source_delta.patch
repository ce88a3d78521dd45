From 31195d4eac69c510c9441f783bd94dbb36c6af0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 01/39] fix: Future.Then on a completed future returns a future
 that completes after the callback

---
 core/actor/actor_reenter_impl.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/actor/actor_reenter_impl.go b/core/actor/actor_reenter_impl.go
index e776c6b..aad23cc 100644
--- a/core/actor/actor_reenter_impl.go
+++ b/core/actor/actor_reenter_impl.go
@@ -25,16 +25,17 @@ func (f *Future) Then(callback func(mw *msg.Wrapper)) core.IFuture {
 	f.mutex.Lock()
 	defer f.mutex.Unlock()
 
-	if f.IsCompleted() {
-		go callback(f.result)
-		return NewFuture()
-	}
-
 	newFuture := NewFuture()
-	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {
+	next := func(mw *msg.Wrapper) {
 		callback(mw)
 		newFuture.Complete(mw)
-	})
+	}
+
+	if f.IsCompleted() {
+		go next(f.result)
+	} else {
+		f.callbacks = append(f.callbacks, next)
+	}
 
 	return newFuture
 }
-- 
2.43.0


From 62dda9f24065b6663c49f89c5fa9e0b74329c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 02/39] fix: actor shutdown drains everything it accepted,
 refuses afterwards and always returns

---
 core/actor/actor_runtime_impl.go | 65 ++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 695ac6d..93ceec9 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"runtime/debug"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -29,6 +30,7 @@ type Runtime struct {
 	q            *mpsc.Queue
 	reenterQueue *mpsc.Queue
 	closed       int32
+	recvMu       sync.RWMutex // orders Received against the start of the shutdown
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
 	chains       map[string]core.IChain
@@ -177,6 +179,9 @@ func (a *Runtime) Received(mw *msg.Wrapper) error {
 		}
 	}
 
+	a.recvMu.RLock()
+	defer a.recvMu.RUnlock()
+
 	if atomic.LoadInt32(&a.closed) != 0 {
 		// Actor已关闭，不处理消息，也不增加计数器
 		log.WarnF("actor %v is closed, message %v will be ignored", a.Id, mw.Req.Header.Event)
@@ -278,29 +283,19 @@ func (a *Runtime) ReenterCall(idOrSymbol, actorType, event string, rmw *msg.Wrap
 }
 
 func (a *Runtime) update() {
-	checkClose := func() {
-		timeout := time.After(10 * time.Second)
-		ticker := time.NewTicker(10 * time.Millisecond)
-		defer ticker.Stop()
-
-		for !a.q.Empty() || !a.reenterQueue.Empty() {
-			select {
-			case <-timeout:
-				log.WarnF("[braid.actor] %s force close due to timeout waiting for queue to empty remaining %v", a.Id, a.q.Count())
-				goto ForceClose
-			case <-ticker.C:
-				continue
-			}
-		}
+	shutdownCh := a.shutdownCh
 
-	ForceClose:
-		if atomic.CompareAndSwapInt32(&a.closed, 1, 2) {
+	for {
+		// Only this goroutine handles messages, so once the actor is draining and both
+		// queues are empty nothing accepted is left (see Received and Exit).
+		if closed := atomic.LoadInt32(&a.closed); closed == 2 ||
+			(closed == 1 && a.q.Empty() && a.reenterQueue.Empty()) {
 			log.InfoF("[braid.actor] %s closing channel", a.Id)
+			atomic.StoreInt32(&a.closed, 2)
 			close(a.closeCh)
+			return
 		}
-	}
 
-	for {
 		select {
 		case timerInfo := <-a.timerChan:
 			if atomic.LoadInt32(&a.closed) != 0 {
@@ -351,22 +346,36 @@ func (a *Runtime) update() {
 				reenterMsg.action(reenterMsg.msg.(*msg.Wrapper))
 			}
 
-		case <-a.shutdownCh:
-			if atomic.CompareAndSwapInt32(&a.closed, 0, 1) {
-				log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
-				go checkClose()
-			}
-		case <-a.closeCh:
-			log.DebugF("[braid.actor] %s exiting closed", a.Id)
-			return
+		case <-shutdownCh:
+			log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
+			shutdownCh = nil
 		}
 	}
 }
 
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
-	close(a.shutdownCh) // 发送关闭信号
-	<-a.closeCh         // 等待所有消息处理完毕
+
+	// From here on Received refuses; what it accepted before is already in the queue.
+	a.recvMu.Lock()
+	first := atomic.CompareAndSwapInt32(&a.closed, 0, 1)
+	a.recvMu.Unlock()
+
+	if first {
+		close(a.shutdownCh) // 发送关闭信号
+	}
+
+	select {
+	case <-a.closeCh: // 等待所有消息处理完毕
+	case <-time.After(10 * time.Second):
+		log.WarnF("[braid.actor] %s force close due to timeout waiting for queue to empty remaining %v", a.Id, a.q.Count())
+		atomic.StoreInt32(&a.closed, 2)
+		return
+	}
+
+	if !first {
+		return
+	}
 
 	for t := range a.timers {
 		a.CancelTimer(t)
-- 
2.43.0


From c4a7ccc5afeb942cc7b69e81012542b622f9424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:56 +0000
Subject: [PATCH 03/39] fix: actor timers fire at once without delay, once
 without interval, never after cancellation, and never crash

---
 core/actor/actor_runtime_impl.go | 28 ++++++++++++++++++++++++----
 core/actor/actor_timer.go        | 25 +++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 93ceec9..86514ce 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -37,6 +37,7 @@ type Runtime struct {
 	recovery     RecoveryFunc
 
 	timers    map[core.ITimer]struct{}
+	timersMu  sync.Mutex
 	timerChan chan core.ITimer
 	//timerWg   sync.WaitGroup // 用于等待所有 timer goroutine 退出
 
@@ -100,7 +101,9 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 		time.Duration(interval)*time.Millisecond,
 		f, args)
 
+	a.timersMu.Lock()
 	a.timers[info] = struct{}{}
+	a.timersMu.Unlock()
 	//a.timerWg.Add(1)
 
 	go func() {
@@ -108,11 +111,15 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 
 		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发
 		if info.dueTime > 0 {
-			<-time.After(info.dueTime)
-			a.timerChan <- info
+			select {
+			case <-time.After(info.dueTime):
+			case <-a.shutdownCh:
+				return
+			}
 		}
 
-		info.ticker = time.NewTicker(info.interval)
+		info.start()
+		a.timerChan <- info
 
 		for {
 			select {
@@ -135,7 +142,10 @@ func (a *Runtime) CancelTimer(t core.ITimer) {
 	log.InfoF("[braid.timer] %v timer cancel", a.Id)
 
 	t.Stop()
+
+	a.timersMu.Lock()
 	delete(a.timers, t)
+	a.timersMu.Unlock()
 }
 
 // Sub subscribes to a message
@@ -298,9 +308,12 @@ func (a *Runtime) update() {
 
 		select {
 		case timerInfo := <-a.timerChan:
-			if atomic.LoadInt32(&a.closed) != 0 {
+			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {
 				continue
 			}
+			if timerInfo.Interval() <= 0 {
+				timerInfo.Stop() // executes only once
+			}
 			func() {
 				defer func() {
 					if r := recover(); r != nil {
@@ -377,7 +390,14 @@ func (a *Runtime) Exit() {
 		return
 	}
 
+	a.timersMu.Lock()
+	timers := make([]core.ITimer, 0, len(a.timers))
 	for t := range a.timers {
+		timers = append(timers, t)
+	}
+	a.timersMu.Unlock()
+
+	for _, t := range timers {
 		a.CancelTimer(t)
 	}
 	//a.timerWg.Wait()
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 0069d54..c06cddd 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -1,6 +1,7 @@
 package actor
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -11,6 +12,7 @@ type TimerInfo struct {
 	ID       string
 	ticker   *time.Ticker
 	dueTime  time.Duration
+	mu       sync.Mutex // guards ticker and interval
 	interval time.Duration
 	callback func(interface{}) error
 	args     interface{}
@@ -18,7 +20,20 @@ type TimerInfo struct {
 	nextTick atomic.Value // 下次触发时间
 }
 
+// start arms the ticker once the first firing is due
+func (t *TimerInfo) start() {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
+	if t.active.Load() && t.interval > 0 {
+		t.ticker.Reset(t.interval)
+	}
+}
+
 func (t *TimerInfo) Stop() bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	if !t.active.Load() {
 		return false
 	}
@@ -29,6 +44,9 @@ func (t *TimerInfo) Stop() bool {
 }
 
 func (t *TimerInfo) Reset(interval time.Duration) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	if interval > 0 {
 		// 如果 interval 和 t.interval 相同，则不处理
 		if t.interval == interval {
@@ -52,6 +70,9 @@ func (t *TimerInfo) IsActive() bool {
 }
 
 func (t *TimerInfo) Interval() time.Duration {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	return t.interval
 }
 
@@ -76,6 +97,10 @@ func NewTimerInfo(dueTime, interval time.Duration, callback func(interface{}) er
 	}
 	t.active.Store(true)
 
+	// not running until start or Reset
+	t.ticker = time.NewTicker(time.Hour)
+	t.ticker.Stop()
+
 	if dueTime != 0 {
 		t.nextTick.Store(time.Now().Add(dueTime))
 	} else {
-- 
2.43.0


From a3ad316a2b59f6a3a123d5201f4fe40840c71099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 04/39] fix: entity version strategies register under the lock
 and the next version is the smallest greater one

---
 core/entity.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/entity.go b/core/entity.go
index 02be84d..7c250c9 100644
--- a/core/entity.go
+++ b/core/entity.go
@@ -35,6 +35,9 @@ var verRMu sync.RWMutex
 
 // RegisterVersionStrategy 注册entity版本变更执行的策略函数
 func RegisterVersionStrategy(s VerStrategy) {
+	verRMu.Lock()
+	defer verRMu.Unlock()
+
 	verList = append(verList, s)
 }
 
@@ -56,14 +59,15 @@ func GetNextVersion(ver int) int {
 	verRMu.RLock()
 	defer verRMu.RUnlock()
 
+	// 没有更高的版本时保持不变
+	next := ver
 	for _, v := range verList {
-		if v.Version > ver {
-			return v.Version
+		if v.Version > ver && (next == ver || v.Version < next) {
+			next = v.Version
 		}
 	}
 
-	// 保持不变
-	return ver
+	return next
 }
 
 type VerStrategy struct {
-- 
2.43.0


From e7650fb89d3ee6ce4aa2615faea3cc04238ed2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 05/39] fix: custom fields read back 8 bit and 64 bit integers
 exactly and can be added after an empty map

---
 router/msg/map_custom_serialize.go | 10 ++++-
 router/msg/msg_custom_map.go       | 63 ++++++++++++++++++++++++++----
 2 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/router/msg/map_custom_serialize.go b/router/msg/map_custom_serialize.go
index 6183b5f..a3d50ac 100644
--- a/router/msg/map_custom_serialize.go
+++ b/router/msg/map_custom_serialize.go
@@ -1,6 +1,7 @@
 package msg
 
 import (
+	"bytes"
 	"encoding/json"
 
 	"github.com/vmihailenco/msgpack/v5"
@@ -15,7 +16,14 @@ type CustomJsonSerialize struct {
 }
 
 func (c *CustomJsonSerialize) Decode(data []byte, v any) error {
-	return json.Unmarshal(data, v)
+	if !json.Valid(data) {
+		return json.Unmarshal(data, v)
+	}
+
+	// Keep numbers as they are written, float64 is not exact beyond 2^53
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
+	return dec.Decode(v)
 }
 
 func (c *CustomJsonSerialize) Encode(v any) ([]byte, error) {
diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f52f8e2..1b6c7b0 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -3,6 +3,7 @@ package msg
 import (
 	"encoding/json"
 	fmt "fmt"
+	"strconv"
 
 	"github.com/pojol/braid/lib/log"
 )
@@ -24,6 +25,9 @@ func (b *MsgBuilder) WithReqCustomFields(attrs ...Attr) *MsgBuilder {
 		}
 	}
 
+	if data == nil { // the existing data is null
+		data = make(map[string]any, len(attrs))
+	}
 	for _, attr := range attrs {
 		data[attr.Key] = attr.Value
 	}
@@ -53,6 +57,9 @@ func (b *MsgBuilder) WithResCustomFields(attrs ...Attr) *MsgBuilder {
 		}
 	}
 
+	if data == nil { // the existing data is null
+		data = make(map[string]any, len(attrs))
+	}
 	for _, attr := range attrs {
 		data[attr.Key] = attr.Value
 	}
@@ -109,11 +116,19 @@ func GetReqCustomField[T any](msg *Wrapper, key string) T {
 	switch any(zero).(type) {
 	case int:
 		if f, ok := val.(float64); ok {
-			return any(int(f)).(T)
+			return any(int(customInt(msg.Req.Header.Custom, key, f))).(T)
 		}
 	case uint:
 		if f, ok := val.(float64); ok {
-			return any(uint(f)).(T)
+			return any(uint(customUint(msg.Req.Header.Custom, key, f))).(T)
+		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
 		}
 	case int16:
 		if f, ok := val.(float64); ok {
@@ -133,11 +148,11 @@ func GetReqCustomField[T any](msg *Wrapper, key string) T {
 		}
 	case int64:
 		if f, ok := val.(float64); ok {
-			return any(int64(f)).(T)
+			return any(int64(customInt(msg.Req.Header.Custom, key, f))).(T)
 		}
 	case uint64:
 		if f, ok := val.(float64); ok {
-			return any(uint64(f)).(T)
+			return any(uint64(customUint(msg.Req.Header.Custom, key, f))).(T)
 		}
 	case float32:
 		if f, ok := val.(float64); ok {
@@ -185,11 +200,19 @@ func GetResCustomField[T any](msg *Wrapper, key string) T {
 	switch any(zero).(type) {
 	case int:
 		if f, ok := val.(float64); ok {
-			return any(int(f)).(T)
+			return any(int(customInt(msg.Res.Header.Custom, key, f))).(T)
 		}
 	case uint:
 		if f, ok := val.(float64); ok {
-			return any(uint(f)).(T)
+			return any(uint(customUint(msg.Res.Header.Custom, key, f))).(T)
+		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
 		}
 	case int16:
 		if f, ok := val.(float64); ok {
@@ -209,11 +232,11 @@ func GetResCustomField[T any](msg *Wrapper, key string) T {
 		}
 	case int64:
 		if f, ok := val.(float64); ok {
-			return any(int64(f)).(T)
+			return any(int64(customInt(msg.Res.Header.Custom, key, f))).(T)
 		}
 	case uint64:
 		if f, ok := val.(float64); ok {
-			return any(uint64(f)).(T)
+			return any(uint64(customUint(msg.Res.Header.Custom, key, f))).(T)
 		}
 	case float32:
 		if f, ok := val.(float64); ok {
@@ -224,3 +247,27 @@ func GetResCustomField[T any](msg *Wrapper, key string) T {
 	log.WarnF("[braid.router] type assertion failed for key %q: expected %T, got %T", key, zero, val)
 	return zero
 }
+
+// customInt returns the integer written for key; f is its float64 value, which is not exact beyond 2^53
+func customInt(custom []byte, key string, f float64) int64 {
+	if n, err := strconv.ParseInt(customNumber(custom, key), 10, 64); err == nil {
+		return n
+	}
+	return int64(f)
+}
+
+// customUint returns the unsigned integer written for key, see customInt
+func customUint(custom []byte, key string, f float64) uint64 {
+	if n, err := strconv.ParseUint(customNumber(custom, key), 10, 64); err == nil {
+		return n
+	}
+	return uint64(f)
+}
+
+func customNumber(custom []byte, key string) string {
+	var data map[string]json.RawMessage
+	if err := json.Unmarshal(custom, &data); err != nil {
+		return ""
+	}
+	return string(data[key])
+}
-- 
2.43.0


From bacbd612f941604d3c66ba232df5187eb09a1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 06/39] fix: WithReqHeader also transfers the timestamp

---
 router/msg/msg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index eca22b1..e952978 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -94,6 +94,7 @@ func (b *MsgBuilder) WithReqHeader(h *router.Header) *MsgBuilder {
 		b.wrapper.Req.Header.TargetActorID = h.TargetActorID
 		b.wrapper.Req.Header.TargetActorType = h.TargetActorType
 		b.wrapper.Req.Header.Custom = h.Custom
+		b.wrapper.Req.Header.Timestamp = h.Timestamp
 	} else {
 		// If either header is nil, directly set the header
 		b.wrapper.Req.Header = h
-- 
2.43.0


From 3c4ac51228075b91f99a56d592a7a16ad4908573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 07/39] fix: setting a builder option no longer changes the
 constructor and other builders of the type

---
 core/actor/actor_build_impl.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/actor/actor_build_impl.go b/core/actor/actor_build_impl.go
index 149c101..43da605 100644
--- a/core/actor/actor_build_impl.go
+++ b/core/actor/actor_build_impl.go
@@ -31,8 +31,15 @@ func (p *ActorLoaderBuilder) WithType(ty string) core.IActorBuilder {
 
 func (p *ActorLoaderBuilder) WithOpt(key string, value string) core.IActorBuilder {
 	p.optionsMutex.Lock()
-	p.Options[key] = value
-	p.optionsMutex.Unlock()
+	defer p.optionsMutex.Unlock()
+
+	// The map may still be shared with the constructor and with other builders of this type
+	options := make(map[string]string, len(p.Options)+1)
+	for k, v := range p.Options {
+		options[k] = v
+	}
+	options[key] = value
+	p.Options = options
 	return p
 }
 
-- 
2.43.0


From 26224a5b2e96911f0093a0cf699df63b930ee433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:56 +0000
Subject: [PATCH 08/39] fix: reject non-positive timer expression steps and
 bound huge ones (they looped forever or overflowed)

---
 lib/timer/timer_express.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/timer/timer_express.go b/lib/timer/timer_express.go
index f19df0e..894c452 100644
--- a/lib/timer/timer_express.go
+++ b/lib/timer/timer_express.go
@@ -100,9 +100,13 @@ func parseExpress(express, expressType string) (times *ExpressSet) {
 	var err error
 	if strings.Contains(express, "/") {
 		frequency, err = strconv.Atoi(subString(express, strings.Index(express, "/")+1, -1))
-		if err != nil {
+		if err != nil || frequency <= 0 {
 			return nil
 		}
+		//a step beyond the range selects only the first value
+		if frequency > V_Max {
+			frequency = V_Max + 1
+		}
 		express = subString(express, 0, strings.Index(express, "/"))
 	}
 
-- 
2.43.0


From 40435fabae2dd9bcbc0c8e0334f60d056eb95dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:51 +0000
Subject: [PATCH 09/39] fix: tick tasks stop for good, survive panics without
 multiplying, and may be used from several goroutines

---
 lib/timer/timer.go      | 43 +++++++++++++++++++++-------
 lib/timer/timer_tick.go | 63 ++++++++++++++++++++++++++++++-----------
 2 files changed, 79 insertions(+), 27 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index 08a6552..8103e24 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -47,6 +47,8 @@ type TimerInfo struct {
 	isRun       bool
 	taskService *TimerService
 	mutex       sync.RWMutex
+	runMutex    sync.Mutex    // held while the task runs
+	stopCh      chan struct{} // closed when the current start is stopped
 	TimeTicker  *time.Ticker
 	TaskType    string
 	handler     TimerHandleFunc
@@ -60,8 +62,12 @@ func (task *TimerInfo) stop() {
 	if !task.isRun {
 		return
 	}
+
+	task.mutex.Lock()
+	defer task.mutex.Unlock()
+
 	if task.State == Timer_state_run {
-		task.TimeTicker.Stop()
+		close(task.stopCh)
 		task.State = Timer_state_stop
 	}
 }
@@ -121,14 +127,33 @@ func Init() *TimerService {
 	return service
 }
 
-func (ts *TimerService) StartAllTask() {
+func (ts *TimerService) tasks() []Timer {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	tasks := make([]Timer, 0, len(ts.taskMap))
 	for _, v := range ts.taskMap {
+		tasks = append(tasks, v)
+	}
+	return tasks
+}
+
+func (ts *TimerService) task(taskID string) (Timer, bool) {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	t, ok := ts.taskMap[taskID]
+	return t, ok
+}
+
+func (ts *TimerService) StartAllTask() {
+	for _, v := range ts.tasks() {
 		v.start()
 	}
 }
 
 func (ts *TimerService) StopAllTask() {
-	for _, v := range ts.taskMap {
+	for _, v := range ts.tasks() {
 		v.stop()
 	}
 }
@@ -156,22 +181,20 @@ func (service *TimerService) RemoveTask(taskID string) {
 }
 
 func (ts *TimerService) StopTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if t, ok := ts.task(taskID); ok {
+		t.stop()
 	}
-	ts.taskMap[taskID].stop()
 }
 
 func (ts *TimerService) StartTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if t, ok := ts.task(taskID); ok {
+		t.start()
 	}
-	ts.taskMap[taskID].start()
 }
 
 func (ts *TimerService) Stop(name string) error {
 
-	if v, ok := ts.taskMap[name]; ok {
+	if v, ok := ts.task(name); ok {
 		v.stop()
 		return nil
 	}
diff --git a/lib/timer/timer_tick.go b/lib/timer/timer_tick.go
index e244eb8..c4515e5 100644
--- a/lib/timer/timer_tick.go
+++ b/lib/timer/timer_tick.go
@@ -21,7 +21,8 @@ func (tt *TimerTask) start() {
 
 	if tt.State == Timer_state_init || tt.State == Timer_state_stop {
 		tt.State = Timer_state_run
-		startTickTask(tt)
+		tt.stopCh = make(chan struct{})
+		startTickTask(tt, tt.stopCh)
 	}
 }
 
@@ -31,6 +32,10 @@ func (tt *TimerTask) runOnce() error {
 }
 
 func NewTickTimer(taskID string, isRun bool, dueTime int64, interval int64, handler TimerHandleFunc, taskData interface{}) (Timer, error) {
+	if interval <= 0 {
+		return nil, fmt.Errorf("tick task %v needs a positive interval", taskID)
+	}
+
 	context := new(TimerContext)
 	context.TimerID = taskID
 	context.TimerData = taskData
@@ -47,16 +52,14 @@ func NewTickTimer(taskID string, isRun bool, dueTime int64, interval int64, hand
 	return task, nil
 }
 
-func startTickTask(task *TimerTask) {
+func startTickTask(task *TimerTask, stopCh chan struct{}) {
 	handler := func() {
 		defer func() {
 			if err := recover(); err != nil {
 				//task.taskService.Logger().Debug(task.TaskID, " loop handler recover error => ", err)
-				if task.taskService.ExceptionHandler != nil {
+				if task.taskService != nil && task.taskService.ExceptionHandler != nil {
 					task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))
 				}
-				//goroutine panic, restart cron task
-				startTickTask(task)
 			}
 		}()
 		if task.taskService != nil && task.taskService.OnBeforeHandler != nil {
@@ -76,19 +79,45 @@ func startTickTask(task *TimerTask) {
 			task.taskService.OnEndHandler(task.Context())
 		}
 	}
-	dofunc := func() {
-		task.TimeTicker = time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
-		handler()
-		for {
-			<-task.TimeTicker.C
-			handler()
+	// run executes the handler unless this start was stopped
+	run := func() bool {
+		task.runMutex.Lock()
+		defer task.runMutex.Unlock()
+
+		select {
+		case <-stopCh:
+			return false
+		default:
 		}
+		handler()
+		return true
 	}
-	//等待设定的延时毫秒
-	if task.DueTime > 0 {
-		go time.AfterFunc(time.Duration(task.DueTime)*time.Millisecond, dofunc)
-	} else {
-		go dofunc()
-	}
+	go func() {
+		//等待设定的延时毫秒
+		if task.DueTime > 0 {
+			due := time.NewTimer(time.Duration(task.DueTime) * time.Millisecond)
+			defer due.Stop()
 
+			select {
+			case <-due.C:
+			case <-stopCh:
+				return
+			}
+		}
+
+		ticker := time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+		defer ticker.Stop()
+
+		task.mutex.Lock()
+		task.TimeTicker = ticker
+		task.mutex.Unlock()
+
+		for run() {
+			select {
+			case <-ticker.C:
+			case <-stopCh:
+				return
+			}
+		}
+	}()
 }
-- 
2.43.0


From 1b6470646437452d5e84b1cfd12990c17fcb15a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 10/39] fix: a span dropped because the queue is full is
 released

---
 lib/tracer/slow_reporter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tracer/slow_reporter.go b/lib/tracer/slow_reporter.go
index 9f70e6a..4e33ae2 100644
--- a/lib/tracer/slow_reporter.go
+++ b/lib/tracer/slow_reporter.go
@@ -90,6 +90,7 @@ func (r *slowReporter) Report(span *jaeger.Span) {
 	case r.queue <- reporterQueueItem{itemType: reporterQueueItemSpan, span: span.Retain()}:
 		atomic.AddInt64(&r.queueLength, 1)
 	default:
+		span.Release() // it was retained for the queue
 		r.metrics.ReporterDropped.Inc(1)
 		r.reporterStats.incDroppedCount()
 	}
-- 
2.43.0


From dc517fb80fb1a07ce4a46a9497d8d21adce3ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 11/39] fix: removing another node's record lowers that node's
 weight

---
 core/addressbook/addressbook_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1a2412e..30b848d 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -118,8 +118,8 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
 
 	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
 
 	_, err = pipe.Exec(ctx)
 	if err == nil {
-- 
2.43.0


From 305eb4f302da00160545d64d848f5db0eae72b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 12/39] fix: clearing the address book forgets the cleared ids
 locally

---
 core/addressbook/addressbook_impl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 30b848d..a32e793 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -330,6 +330,7 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 	}
 
 	pipe := trdredis.Pipeline()
+	cleared := []string{}
 
 	// 删除该节点的所有 actor 信息
 	for actorType := range actorInfos {
@@ -353,6 +354,7 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 				log.InfoF("addressbook clear node %v actor %v", ab.NodeID, actor.ActorId)
 				pipe.SRem(ctx, actorTypeKey, actorJSON)
 				pipe.HDel(ctx, def.RedisAddressbookIDField, actor.ActorId)
+				cleared = append(cleared, actor.ActorId)
 			}
 		}
 	}
@@ -366,5 +368,11 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 		return fmt.Errorf("failed to clear node data: %w", err)
 	}
 
+	ab.Lock()
+	for _, id := range cleared {
+		delete(ab.IDMap, id)
+	}
+	ab.Unlock()
+
 	return nil
 }
-- 
2.43.0


From c1941a7b35e5d96b4016fbc9edd1634e3f4c0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:43 +0000
Subject: [PATCH 13/39] fix: two registrations of one id at the same time could
 both succeed in the address book

---
 core/addressbook/addressbook_impl.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index a32e793..3850b2c 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -27,15 +27,18 @@ type AddressBook struct {
 
 	IDMap map[string]bool
 
+	pending map[string]bool // ids whose registration is in progress
+
 	sync.RWMutex
 }
 
 func New(info core.AddressInfo) *AddressBook {
 	return &AddressBook{
-		IDMap:  make(map[string]bool),
-		NodeID: info.Node,
-		Ip:     info.Ip,
-		Port:   info.Port,
+		IDMap:   make(map[string]bool),
+		pending: make(map[string]bool),
+		NodeID:  info.Node,
+		Ip:      info.Ip,
+		Port:    info.Port,
 	}
 }
 
@@ -48,12 +51,19 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 		return fmt.Errorf("actor id or type is empty")
 	}
 
-	ab.RLock()
-	if _, ok := ab.IDMap[id]; ok {
-		ab.RUnlock()
+	ab.Lock()
+	if ab.IDMap[id] || ab.pending[id] {
+		ab.Unlock()
 		return fmt.Errorf("actor id %v already registered", id)
 	}
-	ab.RUnlock()
+	ab.pending[id] = true
+	ab.Unlock()
+
+	defer func() {
+		ab.Lock()
+		delete(ab.pending, id)
+		ab.Unlock()
+	}()
 
 	// serialize address info to json
 	addrJSON, _ := json.Marshal(core.AddressInfo{
-- 
2.43.0


From 8083adf4d1a376c72e3657fa54415dcafa10e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:43 +0000
Subject: [PATCH 14/39] fix: low weight node lookup paired nodes with the
 weights of others

---
 core/addressbook/addressbook_impl.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 3850b2c..d32227d 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -263,17 +263,20 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	pipe := trdredis.Pipeline()
 
 	// 使用 pipeline 批量获取节点权重
+	nodeIDs := make([]string, 0, len(nodeInfoMap))
 	for nodeID := range nodeInfoMap {
+		nodeIDs = append(nodeIDs, nodeID)
 		pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
 	}
 
 	cmders, err := pipe.Exec(ctx)
-	if err != nil {
+	if err != nil && err != redis.Nil { // nodes without a weight are skipped below
 		return core.AddressInfo{}, fmt.Errorf("pipeline execution failed: %v", err)
 	}
 
 	i := 0
-	for nodeID, nodeInfoJSON := range nodeInfoMap {
+	for _, nodeID := range nodeIDs { // a map has a different order on each iteration
+		nodeInfoJSON := nodeInfoMap[nodeID]
 		if i >= len(cmders) {
 			break
 		}
-- 
2.43.0


From 1aa3c38e48db1fdfb81d4bba0572c19a57ec52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:05 +0000
Subject: [PATCH 15/39] fix: the least loaded candidate was not found when its
 weight was the largest integer

---
 core/addressbook/addressbook_impl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index d32227d..7503cad 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -232,13 +232,13 @@ func (ab *AddressBook) GetWildcardActor(ctx context.Context, actorType string) (
 			continue // skip this actor if unable to get node weight
 		}
 
-		if nodeWeight < lowestWeight {
+		if lowestWeightAddr.ActorId == "" || nodeWeight < lowestWeight {
 			lowestWeight = nodeWeight
 			lowestWeightAddr = addr
 		}
 	}
 
-	if lowestWeight == int(^uint(0)>>1) {
+	if lowestWeightAddr.ActorId == "" {
 		return core.AddressInfo{}, fmt.Errorf("no valid actors found for type %s", actorType)
 	}
 
@@ -290,7 +290,7 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 
 		weight, _ := strconv.Atoi(weightStr)
 
-		if weight < lowestWeight {
+		if selectedNode.Node == "" || weight < lowestWeight {
 			var nodeInfo core.AddressInfo
 			if err := json.Unmarshal([]byte(nodeInfoJSON), &nodeInfo); err != nil {
 				log.WarnF("unable to unmarshal node info: %v", err)
-- 
2.43.0


From 42c737563a6ea45a62c20dfbc23f7c2bcf67f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:22 +0000
Subject: [PATCH 16/39] fix: racing registrations could start two actors with
 one id, uniqueness per node was ignored without a limit

---
 core/node/system_impl.go | 71 ++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7044d19..c9bcb44 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,6 +24,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	registering map[string]string // id -> type of the registrations in progress
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -48,6 +49,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		registering: make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -102,23 +104,18 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		return nil, fmt.Errorf("braid.system register actor id %v type %v parm err", builder.GetID(), builder.GetType())
 	}
 
-	sys.Lock()
-	if _, ok := sys.actoridmap[builder.GetID()]; ok {
-		sys.Unlock()
-		return nil, core.ErrActorRegisterRepeat
+	if builder.GetConstructor() == nil {
+		return nil, fmt.Errorf("braid.system actor %v register err, constructor is nil", builder.GetType())
 	}
-	sys.Unlock()
 
-	if builder.GetGlobalQuantityLimit() != 0 {
-
-		if builder.GetNodeUnique() {
-			for _, v := range sys.actoridmap {
-				if v.Type() == builder.GetType() {
-					return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
-				}
-			}
-		}
+	// Reserve the id (and the type, if it is unique) until the registration is over
+	id := builder.GetID()
+	if err := sys.reserve(builder); err != nil {
+		return nil, err
+	}
+	defer sys.release(id)
 
+	if builder.GetGlobalQuantityLimit() != 0 {
 		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
 		if err != nil {
 			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
@@ -135,13 +132,8 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	}
 
 	// Instantiate actor
-	var actor core.IActor
-	if builder.GetConstructor() != nil {
-		actor = builder.GetConstructor()(builder)
-		actor.Init(ctx)
-	} else {
-		panic(fmt.Errorf("braid.system actor %v register err, constructor is nil", builder.GetType()))
-	}
+	actor := builder.GetConstructor()(builder)
+	actor.Init(ctx)
 
 	sys.Lock()
 	sys.actoridmap[builder.GetID()] = actor
@@ -151,6 +143,43 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	return actor, nil
 }
 
+// reserve marks the builder's id as being registered, if it is free and its type may still be registered on this node
+func (sys *NormalSystem) reserve(builder core.IActorBuilder) error {
+	sys.Lock()
+	defer sys.Unlock()
+
+	if _, ok := sys.actoridmap[builder.GetID()]; ok {
+		return core.ErrActorRegisterRepeat
+	}
+	if _, ok := sys.registering[builder.GetID()]; ok {
+		return core.ErrActorRegisterRepeat
+	}
+
+	if builder.GetNodeUnique() {
+		err := fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
+		for _, v := range sys.actoridmap {
+			if v.Type() == builder.GetType() {
+				return err
+			}
+		}
+		for _, ty := range sys.registering {
+			if ty == builder.GetType() {
+				return err
+			}
+		}
+	}
+
+	sys.registering[builder.GetID()] = builder.GetType()
+	return nil
+}
+
+// release ends the reservation of an id
+func (sys *NormalSystem) release(id string) {
+	sys.Lock()
+	delete(sys.registering, id)
+	sys.Unlock()
+}
+
 func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
-- 
2.43.0


From 7e9f0e276518bee032a9f9170a90769abb1bf67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 17/39] fix: a call arriving while its target was being
 registered removed the new address record

---
 core/node/system_impl.go | 60 ++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index c9bcb44..44adc2c 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,7 +24,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
-	registering map[string]string // id -> type of the registrations in progress
+	registering map[string]string // id -> type, registrations and removals in progress
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -184,9 +184,15 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
 
-	sys.RLock()
+	sys.Lock()
+	if _, ok := sys.registering[id]; ok {
+		sys.Unlock()
+		return fmt.Errorf("braid.system unregister actor id %v is being registered or unregistered", id)
+	}
 	actor, exists := sys.actoridmap[id]
-	sys.RUnlock()
+	sys.registering[id] = "" // of no type
+	sys.Unlock()
+	defer sys.release(id)
 
 	if exists {
 		// Call Exit on the actor
@@ -291,12 +297,11 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
-			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
+		actor, err := sys.reclaim(mw.Ctx, info, actorType, event)
+		if err != nil {
+			return err
 		}
-		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
-
-		return ErrSelfCall
+		return sys.localCall(actor, mw)
 	}
 
 	// At this point, we know it's a remote call
@@ -319,6 +324,37 @@ func (sys *NormalSystem) findLocalOrWildcardActor(ctx context.Context, ty string
 	return nil, info, err
 }
 
+// reclaim is used when the address book names this node although the actor was not found here: it returns the actor
+// if it has been registered meanwhile, otherwise it cleans up the record, unless the id is just being registered or removed.
+func (sys *NormalSystem) reclaim(ctx context.Context, info core.AddressInfo, actorType, event string) (core.IActor, error) {
+	sys.Lock()
+	if actor, ok := sys.actoridmap[info.ActorId]; ok {
+		sys.Unlock()
+		return actor, nil
+	}
+	if _, ok := sys.registering[info.ActorId]; ok {
+		sys.Unlock()
+		return nil, ErrSelfCall
+	}
+	sys.registering[info.ActorId] = "" // of no type
+	sys.Unlock()
+	defer sys.release(info.ActorId)
+
+	if info.ActorTy != "" {
+		actorType = info.ActorTy
+	}
+	weight := 0
+	if ac := sys.factory.Get(actorType); ac != nil {
+		weight = ac.Weight
+	}
+	if err := sys.addressbook.Unregister(ctx, info.ActorId, weight); err != nil {
+		log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
+	}
+	log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
+
+	return nil, ErrSelfCall
+}
+
 func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 
 	root := mw.GetWg().Count() == 0
@@ -455,11 +491,11 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
-			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
+		actor, err := sys.reclaim(mw.Ctx, info, actorType, event)
+		if err != nil {
+			return err
 		}
-		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
-		return ErrSelfCall
+		return actor.Received(mw)
 	}
 
 	return sys.handleRemoteSend(info, mw)
-- 
2.43.0


From 0e8d0426a65985b987df6fc004ab6a4141d09259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:20 +0000
Subject: [PATCH 18/39] fix: removing an actor did not always take back the
 weight it was registered with

---
 core/node/system_impl.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 44adc2c..4f2d113 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,6 +24,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	weights     map[string]int    // weights the local actors were registered with
 	registering map[string]string // id -> type, registrations and removals in progress
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
@@ -49,6 +50,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		weights:     make(map[string]int),
 		registering: make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
@@ -126,7 +128,8 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	}
 
 	// Register first, then build
-	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())
+	weight := builder.GetWeight()
+	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), weight)
 	if err != nil {
 		return nil, err
 	}
@@ -137,6 +140,7 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 
 	sys.Lock()
 	sys.actoridmap[builder.GetID()] = actor
+	sys.weights[builder.GetID()] = weight
 	sys.Unlock()
 
 	log.InfoF("braid.system node %v register %v %v succ", sys.addressbook.NodeID, builder.GetType(), builder.GetID())
@@ -190,6 +194,7 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 		return fmt.Errorf("braid.system unregister actor id %v is being registered or unregistered", id)
 	}
 	actor, exists := sys.actoridmap[id]
+	weight := sys.weights[id]
 	sys.registering[id] = "" // of no type
 	sys.Unlock()
 	defer sys.release(id)
@@ -201,16 +206,18 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 		// Remove the actor from the map
 		sys.Lock()
 		delete(sys.actoridmap, id)
+		delete(sys.weights, id)
 		sys.Unlock()
+	} else {
+		ac := sys.factory.Get(ty)
+		if ac == nil {
+			return fmt.Errorf("braid.system unregister actor id %v unknown type %v", id, ty)
+		}
+		weight = ac.Weight
 	}
 
 	// Unregister from the address book
-	ac := sys.factory.Get(ty)
-	if ac == nil {
-		return fmt.Errorf("braid.system unregister actor id %v unknown type %v", id, ty)
-	}
-
-	err := sys.addressbook.Unregister(context.TODO(), id, sys.factory.Get(ty).Weight)
+	err := sys.addressbook.Unregister(context.TODO(), id, weight)
 	if err != nil {
 		// Log the error, but don't return it as the actor has already been removed locally
 		log.WarnF("braid.system unregister actor id %s failed from address book err: %v", id, err)
-- 
2.43.0


From 3b6f99c83272d2aeb2600d10a9636f2689049fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 19/39] fix: a message whose delivery was refused could crash
 the node when used for another call

---
 core/node/system_impl.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 4f2d113..e49e8ce 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -367,11 +367,14 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 	root := mw.GetWg().Count() == 0
 	if root {
 		log.InfoF("braid.system local call root event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
-		mw.Done = make(chan struct{})
-		ready := make(chan struct{})
-		go func() {
-			<-ready // Wait for Received to complete
+		done := make(chan struct{}) // mw may be used for another call while this one is still waited for
+		mw.Done = done
+
+		if err := actorp.Received(mw); err != nil {
+			return err
+		}
 
+		go func() {
 			waitCh := make(chan struct{})
 			go func() {
 				mw.GetWg().Wait()
@@ -389,17 +392,11 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 				}
 			}
 
-			close(mw.Done)
+			close(done)
 		}()
 
-		if err := actorp.Received(mw); err != nil {
-			close(ready) // Ensure the ready channel is closed even in case of an error
-			return err
-		}
-		close(ready) // Notify the goroutine that Received has completed
-
 		select {
-		case <-mw.Done:
+		case <-done:
 			return nil
 		case <-mw.Ctx.Done():
 			timeoutErr := fmt.Errorf("braid actor %v message %v processing timed out",
-- 
2.43.0


From b3fbba553dbe3cab55c28e7a735435a91b22fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 20/39] fix: the acceptor hid routing errors, remote calls to
 unreachable actors looked successful

---
 core/node/system_acceptor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 9ebff79..0af5cfb 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -107,6 +107,7 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 
 	if err != nil {
 		log.InfoF("listen routing %v err %v", req.Msg.Header.Event, err.Error())
+		return nil, err
 	}
 
 	res.Msg = routermsg.Res
-- 
2.43.0


From f893ad2ac1a2a451e258666d0aa03e13a0da87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 21/39] fix: sending to another node failed without an earlier
 call, reported an error although delivered, and waited for the handler

---
 core/node/system_acceptor.go | 12 +++++++++++-
 core/node/system_impl.go     |  6 ++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 0af5cfb..8b2eac4 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -17,6 +17,7 @@ import (
 	"github.com/pojol/braid/router/msg"
 
 	realgrpc "google.golang.org/grpc"
+	"google.golang.org/grpc/metadata"
 
 	grpc_recovery "github.com/grpc-ecosystem/go-grpc-middleware/recovery"
 )
@@ -90,17 +91,26 @@ func (acceptor *Acceptor) Exit() {
 	acceptor.server.Close()
 }
 
+// routingSend marks a routed message that was sent: the sender does not wait for its handler
+const routingSend = "braid-routing-send"
+
 // acceptor routing
 func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.RouteRes, error) {
 	res := &router.RouteRes{}
 
 	ctx = context.WithValue(ctx, msg.WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
 
+	route := s.sys.Call
+	if len(metadata.ValueFromIncomingContext(ctx, routingSend)) != 0 {
+		route = s.sys.Send
+		ctx = context.WithoutCancel(ctx) // the request ends before the handler
+	}
+
 	routermsg := msg.NewBuilder(ctx).Build()
 	routermsg.Req = req.Msg
 	routermsg.Req.Header.PrevActorType = "GrpcAcceptor"
 
-	err := s.sys.Call(
+	err := route(
 		req.Msg.Header.TargetActorID,
 		req.Msg.Header.TargetActorType,
 		req.Msg.Header.Event, routermsg)
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index e49e8ce..cdc8a57 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -19,6 +19,7 @@ import (
 	"github.com/pojol/braid/router"
 	"github.com/pojol/braid/router/msg"
 	realgrpc "google.golang.org/grpc"
+	"google.golang.org/grpc/metadata"
 )
 
 type NormalSystem struct {
@@ -506,11 +507,12 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper) error {
-	return sys.client.Call(mw.Ctx,
+	return sys.client.CallWait(
+		metadata.AppendToOutgoingContext(mw.Ctx, routingSend, "1"),
 		fmt.Sprintf("%s:%d", info.Ip, info.Port),
 		"/router.Acceptor/routing",
 		&router.RouteReq{Msg: mw.Req},
-		nil) // We don't need the response for Send
+		&router.RouteRes{}) // We don't need the response for Send
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-- 
2.43.0


From 05725eb35ebdd6515f6870f48035c1c3c21683e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 22/39] fix: a message routed by symbol to another node was
 routed again there

---
 core/node/system_impl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index cdc8a57..ce135fa 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -312,7 +312,8 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 		return sys.localCall(actor, mw)
 	}
 
-	// At this point, we know it's a remote call
+	// At this point, we know it's a remote call, the target is not chosen again there
+	mw.Req.Header.TargetActorID = info.ActorId
 	return sys.handleRemoteCall(mw.Ctx, info, mw)
 }
 
@@ -503,6 +504,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 		return actor.Received(mw)
 	}
 
+	mw.Req.Header.TargetActorID = info.ActorId
 	return sys.handleRemoteSend(info, mw)
 }
 
-- 
2.43.0


From bb880aedff0e5fa92cf9a31a8e405c82d518268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:46 +0000
Subject: [PATCH 23/39] fix: a call option of the wrong type crashed CallWait

---
 lib/grpc/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 0a12bd0..b1ea82c 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -147,7 +147,7 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 		for _, v := range opts {
 			callopt, ok := v.(grpc.CallOption)
 			if !ok {
-				fmt.Printf("[braid.client] call option type mismatch")
+				return fmt.Errorf("[braid.client] invalid call option type: %T", v)
 			}
 			grpcopts = append(grpcopts, callopt)
 		}
-- 
2.43.0


From f70b704cb32b6816183a647defcde053e433f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:55 +0000
Subject: [PATCH 24/39] fix: take the lock while listing a node's actors

---
 core/node/system_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index ce135fa..93b6f9b 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -230,6 +230,9 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 }
 
 func (sys *NormalSystem) Actors() []core.IActor {
+	sys.RLock()
+	defer sys.RUnlock()
+
 	actors := []core.IActor{}
 	for _, v := range sys.actoridmap {
 		actors = append(actors, v)
@@ -547,7 +550,7 @@ func (sys *NormalSystem) Exit(wait *sync.WaitGroup) {
 		wait.Done()
 	}
 
-	for _, actor := range sys.actoridmap {
+	for _, actor := range sys.Actors() {
 		wait.Add(1)
 
 		go func(a core.IActor) {
-- 
2.43.0


From 7aa5828881c2928ced32c67d07236d81b272b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 25/39] fix: publish to a topic nobody on this node subscribed
 to

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 93b6f9b..e21b63c 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -521,7 +521,7 @@ func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-	return sys.ps.GetTopic(topic).Pub(context.TODO(), event, body)
+	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-- 
2.43.0


From 0692b163b5d19a44b37f8222fc8c3a043f8756f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:37 +0000
Subject: [PATCH 26/39] fix: hand the options of a subscription on to its topic

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index e21b63c..064c9d5 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -525,7 +525,7 @@ func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-	return sys.ps.GetOrCreateTopic(topic).Sub(context.TODO(), channel)
+	return sys.ps.GetOrCreateTopic(topic, opts...).Sub(context.TODO(), channel)
 }
 
 func (sys *NormalSystem) FindActor(ctx context.Context, id string) (core.IActor, error) {
-- 
2.43.0


From d28fc92802d776fec1aed6de23385c712be4ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:38 +0000
Subject: [PATCH 27/39] fix: delete a published message only when every channel
 has read it

---
 lib/pubsub/ps_channel.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 751eae7..84f5a93 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -2,6 +2,8 @@ package pubsub
 
 import (
 	"context"
+	"strconv"
+	"strings"
 	"sync/atomic"
 	"time"
 
@@ -103,11 +105,16 @@ func (c *Channel) addHandlers(queue *mpsc.Queue) {
 			queue.Push(mb)
 
 			pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
-			pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
+			groups := pipe.XInfoGroups(context.TODO(), c.topic)
 
 			_, err := pipe.Exec(context.TODO())
 			if err != nil {
 				log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
+				continue
+			}
+
+			if readByAll(groups.Val(), recvmsg.Header.ID) {
+				thdredis.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
 			}
 		}
 	EXT:
@@ -115,6 +122,26 @@ func (c *Channel) addHandlers(queue *mpsc.Queue) {
 	}()
 }
 
+// readByAll reports whether every channel of the topic has read the message
+func readByAll(groups []redis.XInfoGroup, id string) bool {
+	ms, seq := parseID(id)
+	for _, g := range groups {
+		gms, gseq := parseID(g.LastDeliveredID)
+		if gms < ms || (gms == ms && gseq < seq) {
+			return false
+		}
+	}
+	return true
+}
+
+// parseID splits the id of a stream message
+func parseID(id string) (ms, seq uint64) {
+	a, b, _ := strings.Cut(id, "-")
+	ms, _ = strconv.ParseUint(a, 10, 64)
+	seq, _ = strconv.ParseUint(b, 10, 64)
+	return ms, seq
+}
+
 func (c *Channel) Arrived(queue *mpsc.Queue) {
 	c.addHandlers(queue)
 }
-- 
2.43.0


From 20bc12e2d310d62ea6174e141aeab06a3571bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:38 +0000
Subject: [PATCH 28/39] fix: do not deliver the message a topic is created with

---
 lib/pubsub/ps_channel.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 84f5a93..78cf9cc 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -66,6 +66,11 @@ func (c *Channel) loop() {
 						return
 					}
 
+					// the message the topic was created with
+					if msg.Values["event"] == "" {
+						continue
+					}
+
 					msg := &router.Message{
 						Header: &router.Header{
 							ID:    msg.ID,
-- 
2.43.0


From 04b193a7de971ee73d3f157917a6c1ed50a19b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 29/39] fix: register the handler of a subscription before its
 messages arrive

---
 core/actor/actor_runtime_impl.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 86514ce..69e8f5d 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -34,6 +34,7 @@ type Runtime struct {
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
 	chains       map[string]core.IChain
+	chainsMu     sync.RWMutex
 	recovery     RecoveryFunc
 
 	timers    map[core.ITimer]struct{}
@@ -82,13 +83,29 @@ func (a *Runtime) Context() core.ActorContext {
 }
 
 func (a *Runtime) OnEvent(ev string, chainFunc func(ctx core.ActorContext) core.IChain) error {
+	if _, exists := a.chain(ev); exists {
+		return fmt.Errorf("actor: repeat register event %v", ev)
+	}
+	chain := chainFunc(a.actorCtx)
+
+	a.chainsMu.Lock()
+	defer a.chainsMu.Unlock()
 	if _, exists := a.chains[ev]; exists {
 		return fmt.Errorf("actor: repeat register event %v", ev)
 	}
-	a.chains[ev] = chainFunc(a.actorCtx)
+	a.chains[ev] = chain
 	return nil
 }
 
+// chain returns the chain registered for the event
+func (a *Runtime) chain(ev string) (core.IChain, bool) {
+	a.chainsMu.RLock()
+	defer a.chainsMu.RUnlock()
+
+	chain, ok := a.chains[ev]
+	return chain, ok
+}
+
 // OnTimer register timer
 //
 //	dueTime: Delay time before starting the timer (in milliseconds). If 0, starts immediately
@@ -161,10 +178,11 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
 	}
 
-	ch.Arrived(a.q)
-
+	// Register the handler first, messages may be waiting
 	a.OnEvent(channel, callback)
 
+	ch.Arrived(a.q)
+
 	return nil
 }
 
@@ -343,7 +361,7 @@ func (a *Runtime) update() {
 					mw.GetWg().Done()
 				}()
 
-				if chain, ok := a.chains[mw.Req.Header.Event]; ok {
+				if chain, ok := a.chain(mw.Req.Header.Event); ok {
 					err := chain.Execute(mw)
 					if err != nil {
 						log.WarnF("actor %v event %v execute err %v", a.Id, mw.Req.Header.Event, err)
-- 
2.43.0


From 63fb80a50843a065912aaca8d701ef4902b75839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 30/39] fix: end an actor's subscriptions when it exits, and
 reading before a channel closes

---
 core/actor/actor_runtime_impl.go | 20 +++++++++++++++++++
 lib/pubsub/ps_channel.go         | 34 +++++++++++++++++++++++---------
 2 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 69e8f5d..3acf839 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -37,6 +37,9 @@ type Runtime struct {
 	chainsMu     sync.RWMutex
 	recovery     RecoveryFunc
 
+	channels   []*pubsub.Channel
+	channelsMu sync.Mutex
+
 	timers    map[core.ITimer]struct{}
 	timersMu  sync.Mutex
 	timerChan chan core.ITimer
@@ -181,6 +184,10 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 	// Register the handler first, messages may be waiting
 	a.OnEvent(channel, callback)
 
+	a.channelsMu.Lock()
+	a.channels = append(a.channels, ch)
+	a.channelsMu.Unlock()
+
 	ch.Arrived(a.q)
 
 	return nil
@@ -384,9 +391,22 @@ func (a *Runtime) update() {
 	}
 }
 
+// stopChannels ends the subscriptions of the actor, what they have read is in the queue afterwards
+func (a *Runtime) stopChannels() {
+	a.channelsMu.Lock()
+	defer a.channelsMu.Unlock()
+
+	for _, ch := range a.channels {
+		ch.Stop()
+	}
+	a.channels = nil
+}
+
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
 
+	a.stopChannels()
+
 	// From here on Received refuses; what it accepted before is already in the queue.
 	a.recvMu.Lock()
 	first := atomic.CompareAndSwapInt32(&a.closed, 0, 1)
diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 78cf9cc..5e8108a 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"strconv"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -22,8 +23,10 @@ type Channel struct {
 	channel  string // stream group
 	consumer string // group consumer
 
-	exitFlag int32
-	msgCh    *unbounded.Unbounded
+	exitFlag   int32
+	reading    sync.WaitGroup // the read loop
+	delivering sync.WaitGroup // the handlers
+	msgCh      *unbounded.Unbounded
 }
 
 func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Channel, error) {
@@ -46,8 +49,11 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 }
 
 func (c *Channel) loop() {
+	c.reading.Add(1)
 	go func() {
-		for {
+		defer c.reading.Done()
+
+		for atomic.LoadInt32(&c.exitFlag) == 0 {
 			msgs := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
 				Group:    c.channel,
 				Consumer: c.consumer,
@@ -61,11 +67,6 @@ func (c *Channel) loop() {
 
 					val := msg.Values["msg"].(string)
 
-					if atomic.LoadInt32(&c.exitFlag) == 1 {
-						log.WarnF("cannot write to the exiting channel %v", c.channel)
-						return
-					}
-
 					// the message the topic was created with
 					if msg.Values["event"] == "" {
 						continue
@@ -87,11 +88,13 @@ func (c *Channel) loop() {
 }
 
 func (c *Channel) addHandlers(queue *mpsc.Queue) {
+	c.delivering.Add(1)
 	go func() {
+		defer c.delivering.Done()
 
 		for {
 			m, ok := <-c.msgCh.Get()
-			if !ok {
+			if !ok || m == nil {
 				goto EXT
 			}
 			c.msgCh.Load()
@@ -151,8 +154,21 @@ func (c *Channel) Arrived(queue *mpsc.Queue) {
 	c.addHandlers(queue)
 }
 
+// Stop ends the reading and returns when all that was read has been delivered. Unlike Close it keeps the channel:
+// what is published from now on waits for its next subscriber.
+func (c *Channel) Stop() {
+	atomic.StoreInt32(&c.exitFlag, 1)
+	c.reading.Wait()
+
+	c.msgCh.Put(nil)
+	c.delivering.Wait()
+}
+
 func (c *Channel) Close() error {
 
+	// Stop reading first, a read would create the consumer again
+	c.Stop()
+
 	_, err := thdredis.XGroupDelConsumer(context.TODO(), c.topic, c.channel, c.consumer).Result()
 	if err != nil {
 		log.WarnF("braid.pubsub topic %v channel %v redis channel del consumer err %v", c.topic, c.channel, err.Error())
-- 
2.43.0


From 443d7a951156f48676bc2a8eaee4e2a10941389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 31/39] fix: report a failure to destroy the group of a closed
 channel

---
 lib/pubsub/ps_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 5e8108a..0fff008 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -182,7 +182,7 @@ func (c *Channel) Close() error {
 	}
 
 	if len(consumers) == 0 {
-		_, err := thdredis.XGroupDestroy(context.TODO(), c.topic, c.channel).Result()
+		_, err = thdredis.XGroupDestroy(context.TODO(), c.topic, c.channel).Result()
 		if err != nil {
 			log.WarnF("braid.pubsub topic %v channel %v redis channel destory err %v", c.topic, c.channel, err.Error())
 		}
-- 
2.43.0


From 5951fcb662f88caed6ea31fe99876116b01cbd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 32/39] fix: a topic that was closed can be created again

---
 lib/pubsub/ps_mgr.go   | 10 ++++++++++
 lib/pubsub/ps_topic.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/lib/pubsub/ps_mgr.go b/lib/pubsub/ps_mgr.go
index 1037d80..bafe61f 100644
--- a/lib/pubsub/ps_mgr.go
+++ b/lib/pubsub/ps_mgr.go
@@ -38,6 +38,16 @@ func (nps *Pubsub) GetTopic(name string) *Topic {
 	return nil
 }
 
+// removeTopic forgets a topic that was cleaned, so that it can be created again
+func (nps *Pubsub) removeTopic(t *Topic) {
+	nps.Lock()
+	defer nps.Unlock()
+
+	if nps.topicMap[t.topic] == t {
+		delete(nps.topicMap, t.topic)
+	}
+}
+
 func (nps *Pubsub) CreateTopic(name string, opts ...TopicOption) *Topic {
 	nps.Lock()
 	defer nps.Unlock()
diff --git a/lib/pubsub/ps_topic.go b/lib/pubsub/ps_topic.go
index 6c242b2..36a14c5 100644
--- a/lib/pubsub/ps_topic.go
+++ b/lib/pubsub/ps_topic.go
@@ -129,6 +129,9 @@ func (rt *Topic) Close() error {
 			if err != nil {
 				return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
 			}
+			if rt.ps != nil {
+				rt.ps.removeTopic(rt)
+			}
 			log.InfoF("[braid.pubsub] Topic %v cleaned successfully", rt.topic)
 		} else {
 			log.InfoF("[braid.pubsub] Topic %v not cleaned: non-empty stream", rt.topic)
-- 
2.43.0


From 60acbcba5588b9463f3593b98c8241f6aa06d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 33/39] fix: use the caller's context for a command on a
 connection

---
 3rd/redis/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/redis/client.go b/3rd/redis/client.go
index 38af08a..dc94216 100644
--- a/3rd/redis/client.go
+++ b/3rd/redis/client.go
@@ -85,7 +85,7 @@ func ConnHGet(conn *redis.Conn, ctx context.Context, key, field string) (string,
 		defer span.End(ctx)
 	}
 
-	cmd := conn.HGet(context.TODO(), key, field)
+	cmd := conn.HGet(ctx, key, field)
 	return cmd.Val(), cmd.Err()
 }
 
-- 
2.43.0


From b902f5f131b8f9d96270a63f58d5702f91b5b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:42 +0000
Subject: [PATCH 34/39] fix: report the failed command of a pipeline

---
 3rd/redis/client_utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/redis/client_utils.go b/3rd/redis/client_utils.go
index 171c996..9b5f45a 100644
--- a/3rd/redis/client_utils.go
+++ b/3rd/redis/client_utils.go
@@ -13,13 +13,13 @@ func GetCmdsByteSlice(cmds []redis.Cmder) ([][]byte, error) {
 	var err error
 	for _, cmder := range cmds {
 		cmd := cmder.(*redis.StringCmd)
-		bytes, err := cmd.Bytes()
+		var bytes []byte
+		bytes, err = cmd.Bytes()
 		if err != nil {
-			goto EXT
+			break
 		}
 		bts = append(bts, bytes)
 	}
-EXT:
 	return bts, err
 }
 
-- 
2.43.0


From b9c818d2aac2577800b2ffb04966b087f25fb125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:16 +0000
Subject: [PATCH 35/39] fix: the connect timeout limited the lifetime of
 connections

---
 3rd/redis/client_opt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/redis/client_opt.go b/3rd/redis/client_opt.go
index e98c79e..8018a63 100644
--- a/3rd/redis/client_opt.go
+++ b/3rd/redis/client_opt.go
@@ -63,7 +63,7 @@ func WithWriteTimeOut(writetimeout time.Duration) Option {
 // WithConnectTimeOut 连接超时时间
 func WithConnectTimeOut(connecttimeout time.Duration) Option {
 	return func(c *Parm) {
-		c.redisopt.ConnMaxLifetime = connecttimeout
+		c.redisopt.DialTimeout = connecttimeout
 	}
 }
 
-- 
2.43.0


From cb47b250c6903b7299619db5617371f7a3595586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:33 +0000
Subject: [PATCH 36/39] fix: do not answer a sent message with the response its
 handler is still writing

---
 core/node/system_acceptor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 8b2eac4..d1adb90 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -101,7 +101,8 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 	ctx = context.WithValue(ctx, msg.WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
 
 	route := s.sys.Call
-	if len(metadata.ValueFromIncomingContext(ctx, routingSend)) != 0 {
+	sent := len(metadata.ValueFromIncomingContext(ctx, routingSend)) != 0
+	if sent {
 		route = s.sys.Send
 		ctx = context.WithoutCancel(ctx) // the request ends before the handler
 	}
@@ -120,6 +121,8 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 		return nil, err
 	}
 
-	res.Msg = routermsg.Res
+	if !sent { // the handler of a sent message is still working on its response
+		res.Msg = routermsg.Res
+	}
 	return res, nil
 }
-- 
2.43.0


From 6d154d648dbe2ef54407d6b1c902e435d790a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:59 +0000
Subject: [PATCH 37/39] fix: a topic that another node closed, or that expired,
 can be used again

---
 lib/pubsub/ps_mgr.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/pubsub/ps_mgr.go b/lib/pubsub/ps_mgr.go
index bafe61f..f4da898 100644
--- a/lib/pubsub/ps_mgr.go
+++ b/lib/pubsub/ps_mgr.go
@@ -1,7 +1,10 @@
 package pubsub
 
 import (
+	"context"
 	"sync"
+
+	thdredis "github.com/pojol/braid/3rd/redis"
 )
 
 type Pubsub struct {
@@ -64,7 +67,12 @@ func (nps *Pubsub) CreateTopic(name string, opts ...TopicOption) *Topic {
 
 func (nps *Pubsub) GetOrCreateTopic(name string, opts ...TopicOption) *Topic {
 	if t := nps.GetTopic(name); t != nil {
-		return t
+		cnt, err := thdredis.Exists(context.TODO(), name).Result()
+		if err != nil || cnt > 0 {
+			return t
+		}
+		// closed by another node, or expired
+		nps.removeTopic(t)
 	}
 	return nps.CreateTopic(name, opts...)
 }
-- 
2.43.0


From 094f191d63a6f64e2966f09c84754fd9d3178b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:34 +0000
Subject: [PATCH 38/39] fix: the address option reset the timeouts and pool
 settings

---
 3rd/redis/client_opt.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/3rd/redis/client_opt.go b/3rd/redis/client_opt.go
index 8018a63..431c1e5 100644
--- a/3rd/redis/client_opt.go
+++ b/3rd/redis/client_opt.go
@@ -23,10 +23,27 @@ func WithAddr(addr string) Option {
 		if err != nil {
 			panic(err)
 		}
+		// the address sets only what it names
+		keep(&p.ReadTimeout, c.redisopt.ReadTimeout)
+		keep(&p.WriteTimeout, c.redisopt.WriteTimeout)
+		keep(&p.DialTimeout, c.redisopt.DialTimeout)
+		keep(&p.PoolTimeout, c.redisopt.PoolTimeout)
+		keep(&p.ConnMaxIdleTime, c.redisopt.ConnMaxIdleTime)
+		keep(&p.PoolSize, c.redisopt.PoolSize)
+		keep(&p.MinIdleConns, c.redisopt.MinIdleConns)
+		keep(&p.MaxIdleConns, c.redisopt.MaxIdleConns)
 		c.redisopt = *p
 	}
 }
 
+// keep keeps the previous setting if there is no new one
+func keep[T comparable](setting *T, previous T) {
+	var none T
+	if *setting == none {
+		*setting = previous
+	}
+}
+
 // 通过域名进行访问
 func WithDomain(domain string) Option {
 	return func(c *Parm) {
-- 
2.43.0


From d2a8b315610fbef33094b259d12edcf0dd89dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:39 +0000
Subject: [PATCH 39/39] fix: a clean-up that failed half way could not be
 completed by repeating it

---
 core/addressbook/addressbook_impl.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 7503cad..abf504d 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -343,7 +343,14 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 	}
 
 	pipe := trdredis.Pipeline()
-	cleared := []string{}
+
+	// an earlier clean-up may have failed after its commands took effect
+	ab.RLock()
+	cleared := make([]string, 0, len(ab.IDMap))
+	for id := range ab.IDMap {
+		cleared = append(cleared, id)
+	}
+	ab.RUnlock()
 
 	// 删除该节点的所有 actor 信息
 	for actorType := range actorInfos {
@@ -365,8 +372,9 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 			}
 			if actor.Node == ab.NodeID {
 				log.InfoF("addressbook clear node %v actor %v", ab.NodeID, actor.ActorId)
-				pipe.SRem(ctx, actorTypeKey, actorJSON)
+				// the set is what a repeated clean-up starts from, so it goes last
 				pipe.HDel(ctx, def.RedisAddressbookIDField, actor.ActorId)
+				pipe.SRem(ctx, actorTypeKey, actorJSON)
 				cleared = append(cleared, actor.ActorId)
 			}
 		}
-- 
2.43.0

