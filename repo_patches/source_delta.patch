From fcebcb2b66a8e41bdff5983e62a3f738d1e5a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 01/28] fix: confstore Update persists accepted values, not
 rejected ones

---
 confstore/store.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 0ae24ce..584212b 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -126,13 +126,17 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 func (m *defaultImpl) Update(key string, value string) *KVError {
 	err := m.UpdateNoPersist(key, value)
 	if err != nil {
-		err2 := m.persister.Save(key, value)
-		if err2 != nil {
-			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
-			return nil
-		}
+		return err
+	}
+	if key == "" {
+		// ignored by UpdateNoPersist, nothing to persist
+		return nil
+	}
+	err2 := m.persister.Save(key, value)
+	if err2 != nil {
+		simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
 	}
-	return err
+	return nil
 }
 
 func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
-- 
2.43.0


From 932d17ca53b8ad5ad28734857f3ad1543a4be3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 02/28] fix: confstore BatchUpdate persists exactly the
 accepted entries and logs a failed save

---
 confstore/store.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 584212b..319e1c7 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -100,26 +100,24 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
 		if error != nil {
 			errors = append(errors, error)
+			continue
 		}
-	}
-
-	// batch persist kvStrs
-	errorKeys := make(map[string]bool)
-	for _, kvError := range errors {
-		errorKeys[kvError.Key] = true
-	}
-	okKvStrs := make([]*KVStr, 0, len(kvStrs))
-	for _, kvStr := range kvStrs {
-		if errorKeys[kvStr.Key] {
+		if kvStr.Key == "" {
+			// ignored by UpdateNoPersist, nothing to persist
 			continue
 		}
 		okKvStrs = append(okKvStrs, kvStr)
 	}
-	m.persister.BatchSave(okKvStrs)
+
+	// batch persist accepted kvStrs
+	if err := m.persister.BatchSave(okKvStrs); err != nil {
+		simplelog.ErrLogger.Println("error happened when batch persist keys:", err)
+	}
 	return errors
 }
 
-- 
2.43.0


From fd2fc1a388902c07bcb5b47116e571992cc07264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 03/28] fix: confstore update no longer races with
 DeregisterKey nor keeps the lock when Convert panics

---
 confstore/store.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 319e1c7..7d407bf 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -142,10 +142,11 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		return nil
 	}
 
+	// held until the value is written, so that the key can't be deregistered in between
 	m.kvProcessorLock.RLock()
-	p, hit := m.kvProcessor[key]
-	m.kvProcessorLock.RUnlock()
+	defer m.kvProcessorLock.RUnlock()
 
+	p, hit := m.kvProcessor[key]
 	if !hit {
 		return &KVError{
 			Key:   key,
@@ -162,8 +163,10 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		}
 	}
 
+	v := p.Convert(value)
+
 	m.kvLock.Lock()
-	m.kv[key] = p.Convert(value)
+	m.kv[key] = v
 	m.kvStr[key] = value
 	m.kvLock.Unlock()
 	return nil
-- 
2.43.0


From 07d8b5e53bd14df99be9fa041fb4a2e86e287f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 04/28] fix: String() of db confs prints MaxOpenConns instead
 of MaxIdleConns twice

---
 confs/mysql.go      | 2 +-
 confs/oracle.go     | 2 +-
 confs/postgresql.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index d754b5d..7fc9902 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -85,7 +85,7 @@ type MysqlConf struct {
 
 func (m *MysqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout: %v, WriteTimeout: %v, Timeout: %v, Loc: %v, ParseTime: %v, Params: %v}",
-		m.Host, m.Port, m.Database, m.MaxIdleConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
+		m.Host, m.Port, m.Database, m.MaxOpenConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
 		m.WriteTimeout, m.Timeout, m.Loc, m.ParseTime, m.Params)
 }
 
diff --git a/confs/oracle.go b/confs/oracle.go
index a8e100e..cf00ca6 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -60,7 +60,7 @@ type OracleConf struct {
 
 func (c *OracleConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Service: %s, Sid: %s, Servers: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
diff --git a/confs/postgresql.go b/confs/postgresql.go
index b52cb87..9da0b78 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -58,7 +58,7 @@ type PostgresqlConf struct {
 
 func (c *PostgresqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Database, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Database, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
-- 
2.43.0


From 544977e80ba3e74bc236e7cf9f2270d55c9546c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 05/28] fix: es client applies MaxConnsPerHost and
 MaxIdleConnsPerHost to the settings of the same name

---
 confs/es.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index bcc000d..47e948c 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -34,8 +34,8 @@ func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Cli
 	}
 
 	transport := http.DefaultTransport.(*http.Transport).Clone()
-	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost
-	transport.MaxIdleConns = conf.MaxIdleConnsPerHost
+	transport.MaxConnsPerHost = conf.MaxConnsPerHost
+	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost
 	transport.ResponseHeaderTimeout = time.Second * 60
 
 	esConf.Transport = transport
-- 
2.43.0


From 1977926e957c2d5b6ee76b532493d9cc2a087990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 06/28] fix: fasthttp client uses the custom trust certs when
 SslTrustMode is CUSTOM

---
 confs/fasthttpclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/confs/fasthttpclient.go b/confs/fasthttpclient.go
index d9ff944..beff76a 100644
--- a/confs/fasthttpclient.go
+++ b/confs/fasthttpclient.go
@@ -97,6 +97,7 @@ func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCust
 			appendCertPool(certPool, cert)
 		}
 		tlsConfig.RootCAs = certPool
+		tlsConfigured = true
 	} else if hcConf.SslTrustMode == "INSECURE" {
 		tlsConfig.InsecureSkipVerify = true
 		tlsConfigured = true
-- 
2.43.0


From a53f1ef92df12dcf04c31ce468babe5b636d58c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:25 +0000
Subject: [PATCH 07/28] fix: fasthttp pprof basic auth accepts passwords
 containing a colon

---
 confs/pprof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 7d0cc68..5db715f 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -101,7 +101,7 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			return nil
 		}
 
-		user_pass := strings.Split(string(b), ":")
+		user_pass := strings.SplitN(string(b), ":", 2)
 		if len(user_pass) != 2 {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From 49d67d30a71e047acfdb5c5d2d5dc6044b3e8869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 08/28] fix: postgresql DSN escapes username, password,
 database and option names

---
 confs/postgresql.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index 9da0b78..affa782 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -88,12 +88,13 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 }
 
 func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
-	ret := fmt.Sprintf("postgres://%s:%s@%s:%d/%s?", conf.Username, conf.Password, conf.Host, conf.Port, conf.Database)
+	userInfo := url.UserPassword(conf.Username, conf.Password)
+	ret := fmt.Sprintf("postgres://%s@%s:%d/%s?", userInfo, conf.Host, conf.Port, url.PathEscape(conf.Database))
 	for key, val := range options {
 		val = strings.TrimSpace(val)
 		for _, temp := range strings.Split(val, ",") {
 			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(temp))
+			ret += fmt.Sprintf("%s=%s&", url.QueryEscape(key), url.QueryEscape(temp))
 		}
 	}
 	ret = strings.TrimRight(ret, "&")
-- 
2.43.0


From f8e1541f8367d395738fd21a6634ee74e0df0cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 09/28] fix: postgresql DSN keeps option values containing a
 comma whole

---
 confs/postgresql.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index affa782..f43a31c 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -92,10 +92,7 @@ func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
 	ret := fmt.Sprintf("postgres://%s@%s:%d/%s?", userInfo, conf.Host, conf.Port, url.PathEscape(conf.Database))
 	for key, val := range options {
 		val = strings.TrimSpace(val)
-		for _, temp := range strings.Split(val, ",") {
-			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", url.QueryEscape(key), url.QueryEscape(temp))
-		}
+		ret += fmt.Sprintf("%s=%s&", url.QueryEscape(key), url.QueryEscape(val))
 	}
 	ret = strings.TrimRight(ret, "&")
 	return ret
-- 
2.43.0


From 5ce5944d2a2aa296bf36ab55fc2e5495f84e5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 10/28] fix: Receiver.CollectTimeout stops when the receiver is
 closed instead of collecting nils

---
 event/bus.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index fe214a0..9ebb638 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -152,14 +152,18 @@ drained:
 	return data
 }
 
-// CollectTimeout collects elements of Receiver.C until timeout
+// CollectTimeout collects elements of Receiver.C until timeout or Receiver.C is closed
 func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
 	timer := time.NewTimer(timeout)
+	defer timer.Stop()
 	data = make([]interface{}, 0, 10)
 drained:
 	for {
 		select {
-		case d := <-r.C:
+		case d, ok := <-r.C:
+			if !ok {
+				break drained
+			}
 			data = append(data, d)
 		case <-timer.C:
 			break drained
-- 
2.43.0


From 25e7653e22b272af89eea1c89e08ab740e557a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:23 +0000
Subject: [PATCH 11/28] fix: closing a Receiver twice, after its bus, or after
 being replaced by name no longer panics or closes another Receiver

---
 event/bus.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index 9ebb638..6c6a2bb 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -87,6 +87,7 @@ func (b *FanOutBus) Close() {
 	close(b.ch)
 	b.recvMapLock.Lock()
 	for name, recv := range b.recvMap {
+		recv.closed = true
 		close(recv.ch)
 		delete(b.recvMap, name)
 	}
@@ -103,11 +104,20 @@ func (b *FanOutBus) doDispatch() {
 	}
 }
 
-func (b *FanOutBus) deregisterRecv(name string) {
+func (b *FanOutBus) deregisterRecv(recv *Receiver) {
 	b.recvMapLock.Lock()
-	close(b.recvMap[name].ch)
-	delete(b.recvMap, name)
-	b.recvMapLock.Unlock()
+	defer b.recvMapLock.Unlock()
+
+	if recv.closed {
+		// closed before, or closed by the event bus
+		return
+	}
+	recv.closed = true
+	close(recv.ch)
+	if b.recvMap[recv.name] == recv {
+		// may have been replaced by another Receiver with the same name
+		delete(b.recvMap, recv.name)
+	}
 }
 
 // Strategy for when Receiver.C is full
@@ -127,11 +137,12 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
+	closed   bool // guarded by bus.recvMapLock
 }
 
-// Close Receiver.C, deregistered itself from event bus
+// Close Receiver.C, deregistered itself from event bus. No-op if it's closed already
 func (r *Receiver) Close() {
-	r.bus.deregisterRecv(r.name)
+	r.bus.deregisterRecv(r)
 }
 
 // Drain drains Receiver.C until it's empty
-- 
2.43.0


From 31499046ff74cc59d45402f8b36dd3aa35220075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:15 +0000
Subject: [PATCH 12/28] fix: closing a Receiver or the bus no longer deadlocks
 with a dispatch blocked on a full Block receiver

---
 event/bus.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index 6c6a2bb..4323bb0 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -29,6 +29,7 @@ type FanOutBus struct {
 	ch          chan interface{}   // internal channel(bidirectional), C is backed by this
 	recvMapLock sync.RWMutex
 	recvMap     map[string]*Receiver
+	done        chan struct{} // closed when event bus is closing, releases dispatching blocked on a Receiver
 }
 
 // NewFanOutBus make a new FanOutBus
@@ -40,6 +41,7 @@ func NewFanOutBus(bufSize int) *FanOutBus {
 		C:       ch,
 		ch:      ch,
 		recvMap: make(map[string]*Receiver, 10),
+		done:    make(chan struct{}),
 	}
 }
 
@@ -68,6 +70,7 @@ func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullS
 		name:     name,
 		bus:      b,
 		strategy: fullStrategy,
+		done:     make(chan struct{}),
 	}
 
 	b.recvMapLock.Lock()
@@ -85,6 +88,7 @@ func (b *FanOutBus) GoDispatch() {
 // Close FanOutBus.C, close all Receiver.C, deregister Receivers
 func (b *FanOutBus) Close() {
 	close(b.ch)
+	close(b.done)
 	b.recvMapLock.Lock()
 	for name, recv := range b.recvMap {
 		recv.closed = true
@@ -137,11 +141,14 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
-	closed   bool // guarded by bus.recvMapLock
+	closed   bool          // guarded by bus.recvMapLock
+	done     chan struct{} // closed when Receiver is closing, releases dispatching blocked on it
+	doneOnce sync.Once
 }
 
 // Close Receiver.C, deregistered itself from event bus. No-op if it's closed already
 func (r *Receiver) Close() {
+	r.doneOnce.Do(func() { close(r.done) })
 	r.bus.deregisterRecv(r)
 }
 
@@ -192,6 +199,10 @@ func (r *Receiver) onEvent(v interface{}) {
 			log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
 		}
 	case Block:
-		r.ch <- v
+		select {
+		case r.ch <- v:
+		case <-r.done:
+		case <-r.bus.done:
+		}
 	}
 }
-- 
2.43.0


From 8fc5b199b27bd110abe847848ab1bd35e53dd568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 13/28] fix: sliding window takes the request time with its
 lock held so records stay in order

---
 ratelimiter/slidingwindow.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/slidingwindow.go b/ratelimiter/slidingwindow.go
index beea9e9..c637d27 100644
--- a/ratelimiter/slidingwindow.go
+++ b/ratelimiter/slidingwindow.go
@@ -60,11 +60,12 @@ type SyncSlidingWindow struct {
 }
 
 func (s *SyncSlidingWindow) Acquire() bool {
-	now := s.nowFn().UnixNano()
-
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
+	// must be taken with lock held, otherwise records may be out of order
+	now := s.nowFn().UnixNano()
+
 	if s.capacity == 0 {
 		return true
 	}
-- 
2.43.0


From 000c6c238f8b02aa1f8abe7fc09e222bd361ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 14/28] fix: fixed window boundary computed with integers so
 nanosecond timestamps always fall inside the window

---
 ratelimiter/fixedwindow.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/fixedwindow.go b/ratelimiter/fixedwindow.go
index c7abf31..b25bf1e 100644
--- a/ratelimiter/fixedwindow.go
+++ b/ratelimiter/fixedwindow.go
@@ -19,7 +19,6 @@ package ratelimiter
 
 import (
 	gtime "github.com/chanjarster/gears/util/time"
-	"math"
 	"sync"
 	"time"
 )
@@ -99,6 +98,12 @@ func (s *SyncFixedWindow) reset(ts int64) {
 	if s.contains(ts) {
 		return
 	}
-	s.until += int64(math.Ceil(float64(ts-s.until)/float64(s.windowSize))) * s.windowSize
+	if s.windowSize > 0 {
+		// exact ceiling, float64 can't represent nanosecond timestamps precisely
+		n := (ts - s.until - 1) /s.windowSize + 1
+		s.until += n * s.windowSize
+	} else {
+		s.until = ts
+	}
 	s.count = 0
 }
-- 
2.43.0


From 87d85d3acfcf3f52eeea82e3e44bc2393b09f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 15/28] fix: token buckets lose no tokens when the clock goes
 backwards

---
 ratelimiter/tokenbucket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 7ded46a..9ede3a3 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -91,7 +91,7 @@ func (t *SyncTokenBucket) issueIfNecessary() {
 	elapse := now - t.lastIssueTimestamp
 	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
 
-	if delta == 0 {
+	if delta <= 0 {
 		return
 	}
 
@@ -150,7 +150,7 @@ func (t *AtomicTokenBucket) issueIfNecessary() {
 		elapse := nowNano - oldLit
 		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
 
-		if delta == 0 {
+		if delta <= 0 {
 			return
 		}
 
-- 
2.43.0


From 535f4d17d1f413cc9a5ef707d8b20fb5c58cdb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 16/28] fix: AtomicTokenBucket claims the elapsed time before
 issuing so its tokens are issued only once

---
 ratelimiter/tokenbucket.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 9ede3a3..733edab 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -138,40 +138,36 @@ func (t *AtomicTokenBucket) Acquire() bool {
 func (t *AtomicTokenBucket) issueIfNecessary() {
 
 	for {
-		oldTokens := atomic.LoadInt64(&t.tokens)
-		if oldTokens >= int64(t.capacity) {
+		now := t.nowFn().UnixNano()
+		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
+
+		if atomic.LoadInt64(&t.tokens) >= int64(t.capacity) {
 			return
 		}
 
-		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
-		now := t.nowFn().UnixNano()
-
-		nowNano := now
-		elapse := nowNano - oldLit
+		elapse := now - oldLit
 		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
 
 		if delta <= 0 {
+			// delta < 0 when clock went backwards
 			return
 		}
 
-		if oldTokens+delta > int64(t.capacity) {
-			delta = int64(t.capacity) - oldTokens
-		}
-
-		s1 := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens+delta)
-		if !s1 {
+		// claim the elapsed time first, so that its tokens are issued only once
+		if !atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now) {
 			continue
 		}
 
-		s2 := atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano)
-		if !s2 {
-			if s1 {
-				atomic.AddInt64(&t.tokens, -delta)
+		for {
+			oldTokens := atomic.LoadInt64(&t.tokens)
+			newTokens := oldTokens + delta
+			if newTokens > int64(t.capacity) {
+				newTokens = int64(t.capacity)
+			}
+			if atomic.CompareAndSwapInt64(&t.tokens, oldTokens, newTokens) {
+				return
 			}
-			continue
 		}
-
-		break
 	}
 
 }
-- 
2.43.0


From 9c8f1808417a6a371e812666168a8fddb39c5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 17/28] fix: token buckets issue no tokens for the time they
 were full

---
 ratelimiter/tokenbucket.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 733edab..ffead71 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -83,15 +83,21 @@ func (t *SyncTokenBucket) Acquire() bool {
 }
 
 func (t *SyncTokenBucket) issueIfNecessary() {
+	now := t.nowFn().UnixNano()
+
 	if t.tokens >= t.capacity {
+		// no tokens are issued for the time the bucket is full
+		if now > t.lastIssueTimestamp {
+			t.lastIssueTimestamp = now
+		}
 		return
 	}
-	now := t.nowFn().UnixNano()
 
 	elapse := now - t.lastIssueTimestamp
 	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
 
 	if delta <= 0 {
+		// delta < 0 when clock went backwards
 		return
 	}
 
@@ -142,6 +148,10 @@ func (t *AtomicTokenBucket) issueIfNecessary() {
 		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
 
 		if atomic.LoadInt64(&t.tokens) >= int64(t.capacity) {
+			// no tokens are issued for the time the bucket is full
+			if now > oldLit {
+				atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now)
+			}
 			return
 		}
 
-- 
2.43.0


From fa2ede983cd7c4be516928d1aade9487a75d526f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 18/28] fix: IsBlocked of the cluster rate limiter looks up the
 key ShouldBlock writes

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index c0e5f6d..8601ef1 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -163,6 +163,10 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	if r.hashTag != "" {
+		blockKey = blockKey + r.hashTag
+	}
+
 	//local keyb = KEYS[1]
 	raw, err := r.redisClient.WithContext(ctx).EvalSha(
 		scriptSha2,
-- 
2.43.0


From 2cb07022b911289b8dd270fe4005261c50ff0738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 19/28] fix: redis rate limiter keeps request records at least
 as long as the window

---
 ratelimiter/ttl_ratelimiter_redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 8601ef1..0906e9b 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -75,7 +75,7 @@ local size = redis.call('LLEN', key)
 if size < cap
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win, exp) * 2)
   return {0, 0, 0, ''}
 end
 
@@ -93,7 +93,7 @@ local list = redis.call('LRANGE', key, 0, 0)
 if table.getn(list) == 0
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win, exp) * 2)
   return {0, 0, 0, ''}
 end
 
@@ -102,7 +102,7 @@ if now - oldest > win
 then
   redis.call('RPUSH', key, now)
   redis.call('LPOP', key)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, math.max(win, exp) * 2)
   return {0, 0, 0, ''}
 end
 
-- 
2.43.0


From 9452c45fe373c61758b4a1da505336ef4bf0c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 20/28] fix: task manager does not keep a task that failed to
 start

---
 schedule/task_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schedule/task_manager.go b/schedule/task_manager.go
index 7e4485b..b65c1d3 100644
--- a/schedule/task_manager.go
+++ b/schedule/task_manager.go
@@ -57,8 +57,8 @@ func (m *taskManager) Register(task Task) error {
 		return errors.New(fmt.Sprintf("task[%s] duplicated", task.Name()))
 	}
 
-	m.taskMap[task.Name()] = task
 	task.MustStart()
+	m.taskMap[task.Name()] = task
 	return nil
 }
 
-- 
2.43.0


From 600571058ebc0e98a5438545c2b3758acb6069d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 21/28] fix: ReadPublicKey returns an error instead of
 panicking on a non RSA public key

---
 util/rsa/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/rsa/util.go b/util/rsa/util.go
index df1c2e1..fd0bc9f 100644
--- a/util/rsa/util.go
+++ b/util/rsa/util.go
@@ -77,7 +77,11 @@ func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	return pub.(*rsa.PublicKey), nil
+	rsaPub, ok := pub.(*rsa.PublicKey)
+	if !ok {
+		return nil, fmt.Errorf("expected RSA PUBLIC KEY, got: %T", pub)
+	}
+	return rsaPub, nil
 }
 
 func ReadX509Certificate(pem string) (*x509.Certificate, error) {
-- 
2.43.0


From 1ce184737c9f4ac710a601cc96ddc196ab0d76ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:10 +0000
Subject: [PATCH 22/28] fix: CssColorHex validates the whole value

---
 confstore/procs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/procs.go b/confstore/procs.go
index e3effbe..3e44ad3 100644
--- a/confstore/procs.go
+++ b/confstore/procs.go
@@ -165,7 +165,7 @@ func (c *cssColorHex) Validate(value string) (ok bool, err string) {
 		return true, ""
 	}
 
-	match, error := regexp.MatchString("#[a-fA-F0-9]{6}", value)
+	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
 	if error != nil {
 		return false, error.Error()
 	}
-- 
2.43.0


From cf4dc8b8b9b3007fa617e783bb8f1381e5134b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 23/28] fix: fasthttp-routing tracing middleware passes on the
 error of the wrapped handlers

---
 skywalking/fasthttp-routing/middleware.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index dbe5250..d57ab14 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -79,10 +79,10 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		SetSwContext(rCtx, spanCtx)
 
-		err = rCtx.Next()
-		if err != nil {
+		nextErr := rCtx.Next()
+		if nextErr != nil {
 			if options.logError {
-				span.Error(time.Now(), err.Error())
+				span.Error(time.Now(), nextErr.Error())
 			} else {
 				span.Error(time.Now())
 			}
@@ -101,7 +101,7 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 		}
 		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
 		span.End()
-		return nil
+		return nextErr
 	}
 
 }
-- 
2.43.0


From b328ce4f7c8a9fc271dc8ebe9bade21afdc33b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 24/28] fix: redis tracing hook survives a span that can't be
 created and only ends its own span

---
 skywalking/redis/hook.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index d3367cf..fe5b668 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -70,6 +70,10 @@ func noopInjector(headerKey, headerValue string) error {
 
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
+	if err != nil {
+		// tracing failure must not fail the command
+		return ctx, nil
+	}
 
 	if h.opts.reportArgs {
 		span.Tag(go2sky.TagDBStatement, cmd.String())
@@ -81,11 +85,12 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return context.WithValue(nCtx, h, span), nil
 }
 
 func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	// only the span created by this hook, the active span may belong to the caller
+	span, _ := ctx.Value(h).(go2sky.Span)
 	if span == nil {
 		return nil
 	}
@@ -109,6 +114,10 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	})
 
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	if err != nil {
+		// tracing failure must not fail the commands
+		return ctx, nil
+	}
 
 	if h.opts.reportArgs {
 		stmt := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
@@ -122,7 +131,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return context.WithValue(nCtx, h, span), nil
 
 }
 
@@ -140,7 +149,8 @@ func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
 }
 
 func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	// only the span created by this hook, the active span may belong to the caller
+	span, _ := ctx.Value(h).(go2sky.Span)
 	if span == nil {
 		return nil
 	}
-- 
2.43.0


From d25de024d8d487352018eae793ddf23ccfd43907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:38 +0000
Subject: [PATCH 25/28] fix: conf.Load panicked on a configuration field of a
 named basic type

---
 conf/reflect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conf/reflect.go b/conf/reflect.go
index 1272de6..c472bfc 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -19,6 +19,7 @@ package conf
 
 import (
 	"reflect"
+	"time"
 )
 
 // Initialize p's field. If field is exported and is a pointer,
@@ -125,6 +126,10 @@ func visitExportedFieldsPath(f reflect.StructField, v reflect.Value, path string
 
 	case reflect.Bool, reflect.Float64, reflect.Int,
 		reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64:
+		if t := v.Type(); t.PkgPath() != "" && t != reflect.TypeOf(time.Nanosecond) {
+			// a named type, eg, type Level string, is not supported
+			return
+		}
 		fn(path, f, v)
 
 	case reflect.Struct:
-- 
2.43.0


From e74816cfecf0475e658924b2439695cf7e38022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:52 +0000
Subject: [PATCH 26/28] fix: a malformed connection url no longer puts the
 database password in the log

---
 confs/oracle.go     | 16 ++++++++--------
 confs/postgresql.go | 26 ++++++++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/confs/oracle.go b/confs/oracle.go
index cf00ca6..9ad1d26 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -72,8 +72,8 @@ func NewOracleDb(conf *OracleConf, customizer OracleUrlOptionsCustomizer) *sql.D
 	connectionString := go_ora.BuildUrl(conf.Host, conf.Port, conf.Service, conf.Username, conf.Password, options)
 	db, err := sql.Open("oracle", connectionString)
 	if err != nil {
-		simplelog.ErrLogger.Fatal(err)
-		panic(err)
+		simplelog.ErrLogger.Fatal(withoutUrl(err))
+		panic(withoutUrl(err))
 	}
 	db.SetMaxOpenConns(conf.MaxOpenConns)
 	db.SetMaxIdleConns(conf.MaxIdleConns)
@@ -81,8 +81,8 @@ func NewOracleDb(conf *OracleConf, customizer OracleUrlOptionsCustomizer) *sql.D
 
 	err = db.Ping()
 	if err != nil {
-		simplelog.ErrLogger.Fatal("Oracle connection error: ", err)
-		panic(err)
+		simplelog.ErrLogger.Fatal("Oracle connection error: ", withoutUrl(err))
+		panic(withoutUrl(err))
 	}
 
 	simplelog.StdLogger.Printf("Connected to Oracle: %s:%d", conf.Host, conf.Port)
@@ -134,8 +134,8 @@ func NewOracleDbWithTracer(conf *OracleConf, tracer *go2sky.Tracer, customizer O
 		sqlPlugin.WithParamReport(),
 	)
 	if err != nil {
-		simplelog.ErrLogger.Fatal(err)
-		panic(err)
+		simplelog.ErrLogger.Fatal(withoutUrl(err))
+		panic(withoutUrl(err))
 	}
 	db.SetMaxOpenConns(conf.MaxOpenConns)
 	db.SetMaxIdleConns(conf.MaxIdleConns)
@@ -143,8 +143,8 @@ func NewOracleDbWithTracer(conf *OracleConf, tracer *go2sky.Tracer, customizer O
 
 	err = db.Ping()
 	if err != nil {
-		simplelog.ErrLogger.Fatal("Oracle connection error: ", err)
-		panic(err)
+		simplelog.ErrLogger.Fatal("Oracle connection error: ", withoutUrl(err))
+		panic(withoutUrl(err))
 	}
 
 	simplelog.StdLogger.Printf("Connected to Oracle: %s:%d", conf.Host, conf.Port)
diff --git a/confs/postgresql.go b/confs/postgresql.go
index f43a31c..496a094 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -2,6 +2,7 @@ package confs
 
 import (
 	"database/sql"
+	"errors"
 	"fmt"
 	"github.com/SkyAPM/go2sky"
 	sqlPlugin "github.com/SkyAPM/go2sky-plugins/sql"
@@ -70,8 +71,8 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 	dsn := buildPgDsn(conf, options)
 	db, err := sql.Open("postgres", dsn)
 	if err != nil {
-		simplelog.ErrLogger.Fatal(err)
-		panic(err)
+		simplelog.ErrLogger.Fatal(withoutUrl(err))
+		panic(withoutUrl(err))
 	}
 	db.SetMaxOpenConns(conf.MaxOpenConns)
 	db.SetMaxIdleConns(conf.MaxIdleConns)
@@ -79,8 +80,8 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 
 	err = db.Ping()
 	if err != nil {
-		simplelog.ErrLogger.Fatal("Postgresql connection error: ", err)
-		panic(err)
+		simplelog.ErrLogger.Fatal("Postgresql connection error: ", withoutUrl(err))
+		panic(withoutUrl(err))
 	}
 
 	simplelog.StdLogger.Printf("Connected to Postgresql: %s:%d", conf.Host, conf.Port)
@@ -98,6 +99,15 @@ func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
 	return ret
 }
 
+// withoutUrl strips the connection url, which carries the password, from an url parse error
+func withoutUrl(err error) error {
+	var urlErr *url.Error
+	if errors.As(err, &urlErr) {
+		return urlErr.Err
+	}
+	return err
+}
+
 func preparePgUrlOptions(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustomizer) map[string]string {
 	options := map[string]string{}
 
@@ -136,8 +146,8 @@ func NewPostgresqlDbWithTracer(conf *PostgresqlConf, tracer *go2sky.Tracer, cust
 	)
 
 	if err != nil {
-		simplelog.ErrLogger.Fatal(err)
-		panic(err)
+		simplelog.ErrLogger.Fatal(withoutUrl(err))
+		panic(withoutUrl(err))
 	}
 	db.SetMaxOpenConns(conf.MaxOpenConns)
 	db.SetMaxIdleConns(conf.MaxIdleConns)
@@ -145,8 +155,8 @@ func NewPostgresqlDbWithTracer(conf *PostgresqlConf, tracer *go2sky.Tracer, cust
 
 	err = db.Ping()
 	if err != nil {
-		simplelog.ErrLogger.Fatal("Postgresql connection error: ", err)
-		panic(err)
+		simplelog.ErrLogger.Fatal("Postgresql connection error: ", withoutUrl(err))
+		panic(withoutUrl(err))
 	}
 
 	simplelog.StdLogger.Printf("Connected to Postgresql: %s:%d", conf.Host, conf.Port)
-- 
2.43.0


From c11cb68ecb298f8ead3f1e3140d5df652fdecf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:23 +0000
Subject: [PATCH 27/28] fix: every redis command panicked when the tracing hook
 was created without a tracer

---
 skywalking/redis/hook.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index fe5b668..63d440d 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -69,6 +69,9 @@ func noopInjector(headerKey, headerValue string) error {
 }
 
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
+	if h.tracer == nil {
+		return ctx, nil
+	}
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
 	if err != nil {
 		// tracing failure must not fail the command
@@ -108,6 +111,9 @@ func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
 }
 
 func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
+	if h.tracer == nil {
+		return ctx, nil
+	}
 
 	opName := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
 		return obj.Name()
-- 
2.43.0


From f45ef22f570f07a28b7d40ad6f09ea8d7a232743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:06 +0000
Subject: [PATCH 28/28] fix: the cluster rate limiter's hash tag comes before
 braces in the caller's keys

---
 ratelimiter/ttl_ratelimiter_redis.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 0906e9b..8bd9ece 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -163,8 +163,9 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	// redis hashes the first braces in a key, so the tag must precede braces in the caller's keys
 	if r.hashTag != "" {
-		blockKey = blockKey + r.hashTag
+		blockKey = r.hashTag + blockKey
 	}
 
 	//local keyb = KEYS[1]
@@ -197,9 +198,10 @@ func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key strin
 	key = prefix + key
 	blockKey = blockKey + suffix
 
+	// redis hashes the first braces in a key, so the tag must precede braces in the caller's keys
 	if r.hashTag != "" {
-		key = key + r.hashTag
-		blockKey = blockKey + r.hashTag
+		key = r.hashTag + key
+		blockKey = r.hashTag + blockKey
 	}
 
 	//local key = KEYS[1]
-- 
2.43.0

