package main

func init() {
	register(&Check{
		id:  "C06",
		min: 40,
		rule: "Batches are followed from the pipeline to their completion. The list pipelines push to is run on small lists and gives back exactly what was pushed, in order, also when it is closed or grows while it is waited for. " +
			"The selector is interpreted, call after call, for every way in which small lists of linked batches arrive, are closed and are held back by the write limit: each batch comes out once, none is left when the end is reported, nothing is waited for while a taken batch is not yet sent. " +
			"The ring buffer stores and returns, for every size and position, each batch once and in order. The sending goroutine gives the receiver each batch it takes once, and before it takes more; the receiving goroutine completes what it reads one by one and reads on only when all are completed; publish completes every batch that is refused and none that is accepted. Each command has its own channel with room for its result, and nobody else completes one.",
		not: "That the wait for a response ends: a read ends by its deadline (C10), its error (C08) or Close (C11). The ring buffer's counters stay below 2^60; the selector is run for up to three pipelines with up to three batches each, its lists do not depend on their length.",
		run: runC06,
	})
}

var c06Rules = []string{"list-push", "list-pop", "drain-once", "drain-wait", "drain-batch", "drain-all", "drain-progress", "drain-sibling",
	"loop-empty", "loop-pushed", "loop-push", "loop-open", "loop-ends",
	"done-all", "done-order", "done-read", "done-room", "done-end", "done-exit",
	"publish-once", "publish-refused", "publish-accepted", "channel-own", "channel-room"}

func ruleSet(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, r := range l {
		m[r] = true
	}
	return m
}

func runC06(c *Ctx) {
	q := newQueueEnv(c)
	if q == nil {
		return
	}
	q.rules = ruleSet(c06Rules...)
	m := q.ringMask()
	q.checkRingPush(m)
	q.checkRingRead(m)
	q.checkSendBuffer()
	q.checkDrain()
	e := c.engine(Hooks{})
	s, r := q.started(e)
	q.checkSender(s)
	q.checkReceiver(r)
	q.checkPublish()
	q.checkChannels(r)
	// a response is only answered by the server when the request went out
	if n := newConnEnv(c); n != nil {
		if ss := findSenderState(c, n); ss != nil {
			e := c.engine(Hooks{})
			s, _ := q.started(e)
			q.checkWrites(n, ss, s, ruleSet("write-all", "write-flushed"))
		}
	}
}
