# id -> extra limits and remarks
NOTES = {
 "C01": "Channel semaphores: the bound is the channel's capacity, so the check is that each permit operation is exactly one send or receive on the one channel made with the configured capacity.",
 "C02": "Fairness is not claimed (T04).",
 "B02": "Pins the field names the existing tests use (failures, failureThreshold, lastFailureTs, resetTimeout, nowFn).",
 "R05": "Assumes the clock is the nowFn of the bucket and int64 nanoseconds do not overflow.",
 "R07": "The Lua text is taken from the constant the Go source hands to the Redis client and parsed by `lua.go`; the subset is local variables, if, return, calls of redis.call/tonumber, comparison, arithmetic and `..`. Anything else is undecided. Redis executes the script atomically.",
 "S03": "That a job ends when its context is cancelled is the job's business.",
 "S05": "Real tick times are T01.",
 "E01": "A dispatch snapshot may include a receiver that is closed meanwhile; then E02 decides.",
 "K05": "Covers the policies made by NewLoadPolicy and NewSimpleLoadPolicy and the store's use of any policy.",
 "K07": "Conversions are matched against the validator of the same processor (same parser, same base and bit size), so that what validation accepts converts without loss.",
 "K09": "Validators are turned into automata (regexp constants, strings.* predicates, enum lists) and compared with the documented set; parsers of the standard library (strconv, url, time) are taken as the definition of their set.",
 "F02": "Decided by running the reflect model over a catalogue of all field kinds, named and unnamed, pointers and durations included.",
 "F03": "ASCII names only; decided by language inclusion of the name functions over character classes.",
 "F04": "For non-recursive configuration types; fields reached through exported fields.",
 "N01": "A leak is a path on which text reaching a log call, panic, error or String result contains a secret field or something derived from it that is not a length or comparison.",
 "N02": "The meaning of a driver option is its name in the driver's API, tabulated per client.",
 "N03": "log.Fatalf does not return.",
 "N04": "gin.BasicAuth admits exactly the accounts it is given; fasthttp-routing aborts the chain when a handler returns an error.",
 "N05": "What a successful ping means is up to the driver.",
 "N07": "Customisers are functions given by the caller.",
 "W01": "Panicking handlers are not covered.",
 "W02": "Error texts are taken to be non-empty.",
 "W04": "Component ids 5004/5005/7 are those skywalking assigns to the traced libraries.",
 "P01": "The readers are found by signature: text or bytes to key or certificate.",
 "X02": "Reads of never-reassigned fields need no lock; publication is by construction before sharing.",
 "X05": "Panics of user-supplied code (callbacks, processors, tasks such as the MustStart of a task already started, persistence) pass through. Unexported fields are trusted to be set only as far as every constructor path sets them and no operation clears them; integer fields to be non-negative only if every value published under the lock is.",
 "X06": "Library functions other than the sorting ones are taken to leave what they are given alone; objects of other packages handed to handlers and customisers (requests, options) are there to be changed.",
 "X03": "Lock order is a graph over lock fields (types), so two objects of one type count as one lock; that is conservative.",
}
