import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))
TX='inc/Tecs_transaction.hh';EN='inc/Tecs_entity.hh';LK='inc/Tecs_lock.hh';ST='inc/Tecs_storage.hh';OB='inc/Tecs_observer.hh';EC='inc/Tecs.hh';PE='inc/Tecs_permissions.hh';VW='inc/Tecs_entity_view.hh';TR='inc/Tecs_tracing.hh';CC='src/Tecs.cc'
p('C01','A transaction reads its own writes and a stable start-of-transaction view',
 "Inside a transaction, current-value queries (Get, Has, Exists, the entity lists) made with write or add/remove access return what this transaction has written so far, and otherwise the committed state. Previous-value queries (GetPrevious, Had, Existed, the Previous entity lists) and every query made through a read-only subset of the lock return exactly the state committed when the transaction started, whatever the transaction has written since.",
 ['inputs','histories','programs'],'every entity handle, component type and lock type, after every sequence of operations inside the transaction',
 "the tests read back a few hand-written sequences on Transform/Script; no test varies the lock's static type, a read-only subset taken from a writing transaction, or out-of-range and stale handles together",
 [EN,LK],[('choice between committed and in-progress buffers','Entity::Get/GetPrevious/Has/Had/Exists/Existed, Lock::Get/Has/Had/Entities*'),('permission bits carried by a lock','Lock::permissions')],
 [('readComponents/writeComponents','committed and in-progress copies of a component',ST)],['values and booleans returned by the query functions'])
p('C02','Ending a transaction publishes exactly what it wrote and nothing else',
 "When the last lock of a transaction is released, every component value, component presence, entity and global component it wrote becomes the committed state, and everything it did not write keeps its committed value. The next writing transaction starts from exactly that committed state, so no committed update is ever lost or resurrected, whether the data was copied in bulk or entity by entity.",
 ['histories','inputs','configurations'],'every set of written component types, every population of entities (dense or sparse, before and after growth), every sequence of transactions',
 "tests check single follow-up reads on dense populations; the sparse copy path, the interplay of 'written' flags with several component types and the state left in the hidden write buffer only show up several transactions later",
 [TX,ST,LK,EN],[('swap of the two buffers followed by re-synchronising the write buffer','Transaction::~Transaction'),('write-accessed flags','BaseTransaction::SetAccessFlag, Entity/Lock mutators')],
 [('writeAccessedFlags','which storages the transaction wrote',TX)],['values seen by later transactions'])
p('C03','A commit over several component types becomes visible atomically',
 "If a transaction wrote several component types (or entities and components), any other transaction sees either all of those writes or none of them. In particular no transaction can start and observe one component type after the commit and another, or the entity set, before it.",
 ['schedules'],'every interleaving of any number of concurrently starting and ending transactions',
 "a test can only sample a few interleavings and the window is a handful of instructions",
 [TX,ST],[('all commit locks are acquired before the first buffer is swapped and each is released after its swap','Transaction::~Transaction'),('readers hold all their locks until the transaction ends','Transaction::Transaction')],
 [],['combination of values seen by a reading transaction'])
p('C04','Per component type: one writer, and no reader while a commit is copied',
 "For each component type at most one transaction with write access is active at any time, any number of readers may overlap with it, and while a commit replaces the committed data of that type no transaction with access to it is active. A lock attempt reports success only if the lock was really granted, and releasing restores exactly the state before acquisition.",
 ['schedules'],'every number of threads and every interleaving of their atomic operations, including spurious compare-exchange failures',
 "the test program exercises a few thread counts on one machine; a lost update on the lock word needs a specific interleaving of two atomic operations",
 [ST],[('reader count / reader-locked sentinel and writer state machine','ComponentIndex::ReadLock, ReadUnlock, WriteLock, CommitLock, CommitUnlock, WriteUnlock'),('acquire/release ordering on lock words','ComponentIndex')],
 [('readers, writer','lock words of one component type',ST)],['overlap of transactions on one component type'])
p('C05','Lock waiting: no lost wake-ups, try-locks never wait, commits hold off readers',
 "A thread that goes to sleep waiting for a component lock sleeps only on a value that really blocks it, and every change that could unblock a sleeper is followed by a wake-up. A non-blocking attempt never waits, and while a commit is pending on a component type no new reader of that type gets in.",
 ['schedules'],'every interleaving of waiting, releasing and notifying threads',
 "a missed notification needs a waiter to fall asleep exactly between a check and a release; tests would hang only rarely, and most of their threads spin rather than sleep",
 [ST],[('atomic wait/notify pairing','ComponentIndex lock and unlock functions'),('retry loop with bounded spinning','TECS_SPINLOCK_RETRY_YIELD')],
 [],['threads blocked forever; readers admitted during a pending commit'])
p('C06','Starting a transaction takes exactly its locks and waits only while holding none',
 "Starting a transaction returns holding exactly the locks its permissions call for - shared for read, exclusive for write, everything exclusive for add/remove - each acquired once. While it is still acquiring, it only ever blocks when it holds no lock at all, so transactions starting concurrently cannot deadlock, and if it must back off it releases everything it had taken.",
 ['schedules','configurations'],'every outcome (granted or refused) of every individual lock attempt, every permission list',
 "tests see only the uncontended order or a few contended ones; double acquisition or waiting while holding needs particular refusals in a particular order",
 [TX,ST],[('try-all-or-roll-back acquisition loop','Transaction::Transaction')],[],['lock state after start; deadlock between starting transactions'])
p('C07','Ending a transaction releases every lock once and waits only for what it wrote',
 "When a transaction ends, every lock it acquired is released exactly once. It waits for readers only of those component types (and the entity set) that it actually modified - a transaction that modified nothing never waits - and it gives up all its own component read locks before it starts waiting, so ending transactions cannot deadlock with each other.",
 ['schedules','histories'],'every permission list, every subset of modified component types, every interleaving with other transactions',
 "the tests have three scenarios for no-op commits and one for overlapping commits; a leaked, doubly released or too-early released lock appears only for particular combinations of permissions and writes",
 [TX,ST],[('early unlock of read and unmodified write locks, then commit locks, then unlock','Transaction::~Transaction'),('write-accessed flags','BaseTransaction')],[],['lock state after the transaction; blocking of transactions that wrote nothing'])
p('C08','Every access to shared data happens under a lock that permits it',
 "No operation reads or modifies stored components, entity data, entity lists, free lists or event queues unless its transaction at that moment holds a lock entitling it to do so (shared or exclusive access for committed data, exclusive for in-progress data, commit access to replace committed data). Programs that use locks as documented are therefore free of data races inside the library.",
 ['schedules','programs'],'every operation available through every lock type, every interleaving of transactions',
 "a data race needs two threads in the same few instructions and usually leaves no visible trace; tests do not run under a race detector and sample few lock types",
 [EN,LK,TX,OB,ST],[('two-buffer ownership discipline','Entity, Lock, Transaction, Observer'),('order of swap and unlock at commit','Transaction::~Transaction')],[],['unsynchronised accesses'])
p('C09','A new entity handle is never one that was handed out before',
 "Creating an entity returns a non-null handle that does not designate any existing entity and is different from every handle this instance returned before, even when storage of a destroyed entity is reused. The handle carries the instance's identifier, and this holds until one storage slot has been reused so often that its generation counter wraps around.",
 ['histories','inputs'],'every history of creations, destructions and transactions, across storage growth, below 2^24 reuses of one slot',
 "tests reuse each slot three times in fixed order; they do not mix growth, destruction inside the creating transaction and several instances",
 [LK,TX,EN],[('free list rebuilt at commit with generation + 1','Transaction::PreCommitAddRemoveMetadata'),('batch growth','Lock::NewEntity'),('generation encoding','GenerationWithIdentifier')],
 [('freeEntities','handles available for creation',EC)],['handles returned by NewEntity'])
p('C10','A handle exists exactly from its creation to its destruction',
 "A handle exists if and only if this instance created it and it has not been destroyed; destroying it affects no other entity, removes all of its components, and it never exists again even if its slot is reused. Null, stale, out-of-range and foreign handles (from another instance) never exist and never give access to anything.",
 ['histories','inputs'],'every handle value and every history of creations, destructions and commits (below generation wrap-around, up to 255 instances)',
 "tests probe the null handle and immediate copies only",
 [EN,LK,TX],[('alive bit + generation comparison','Entity::Exists/Existed/Has/Had'),('Destroy / RemoveAllComponents','Entity::Destroy, Lock::RemoveAllComponents')],
 [('EntityMetadata','alive bit, component bits and generation of each slot',EC)],['Exists/Existed results'])
p('C11','Adding or removing a component affects exactly that entity and component',
 "Setting (or mutably getting, under add/remove access) a component makes Has true for exactly that entity and component type, removing makes it false, and no other entity, component type or value changes. Without add/remove access no operation ever changes which entities or components exist.",
 ['inputs','histories','programs'],'every entity, component type, lock type and sequence of operations, including operations called through a handle that lives inside an entity list',
 "tests check the neighbouring component types of one entity, never the other entities, and pass handles by copy",
 [EN,LK],[('component bits in entity metadata','Entity::Get/Set/Unset, Lock::RemoveComponents')],[],['Has/Had for every entity and type'])
p('C12','A component reads back the value last stored for that very entity',
 "Get returns the value last written for that entity and component type and a freshly added component that was not given a value starts default-constructed, never with leftovers of an earlier entity or component in that slot. Growing storage, creating, destroying or writing other entities never changes it, and a removed component's value is dropped from the writable copy immediately.",
 ['histories','inputs'],'every entity and component type over every history of operations and storage growth',
 "tests re-read a few written values; leftovers need a remove, a commit and a re-add of the same slot, or growth in between",
 [EN,LK,TX],[('reset on add and on remove','Entity::Get, Lock::RemoveComponents'),('resize in batches','Lock::AllocateComponents')],[],['values returned by Get'])
p('C13','Entity lists contain exactly the matching entities, once each',
 "After every commit the list of entities with a component type contains each entity that has it exactly once and nothing else, and likewise the list of all entities. During an add/remove transaction each list contains every currently matching entity exactly once, entries of removed ones turn into null handles in place, and a list view already obtained neither moves nor changes size.",
 ['histories','inputs'],'every history of creations, removals and re-additions, within and across transactions',
 "tests compare list sizes and the first element in a few scenarios",
 [TX,LK,EN],[('list rebuild at commit','PreCommitAddRemove, PreCommitAddRemoveMetadata'),('append on add, null out on remove through validEntityIndexes','Entity, Lock')],
 [('readValidEntities/writeValidEntities','entity lists',ST),('validEntityIndexes','position of an entity in the write list',ST)],['Entities/EntitiesWith/Previous* views'])
p('C14','Invalid accesses are rejected with an exception and change nothing',
 "In the default (checked) mode, any component access or modification through a handle that does not exist, or to a component that is missing and may not be added under the held permissions, throws and leaves all stored data and the handle unchanged. No operation on any handle value ever accesses storage out of bounds.",
 ['inputs','histories'],'every 64-bit handle value, every component type and lock type, every reachable storage state',
 "tests try only the null handle on one component type and cannot enumerate index/generation combinations around storage sizes",
 [EN,LK],[('bounds, alive and generation checks','Entity::Get/GetPrevious/Set/Unset/Destroy'),('equal sizes of all per-entity vectors','Lock::NewEntity, AllocateComponents')],[],['exceptions; stored state after an exception'])
p('C15','Observers receive exactly the changes of each commit, once and in order',
 "Each committed add/remove transaction delivers to every active observer exactly one event per net change of what it watches: one removal for each entity or component that existed at the transaction's start and no longer does (with its old value), one addition for each new one (with its committed value), and nothing for changes that cancel out. Events of a commit appear in a deterministic slot order after those of earlier commits.",
 ['histories','inputs'],'every add/remove transaction from every state, every number of observers, entity events, component events and global-component events',
 "tests poll one fixed scenario per event type with one observer each",
 [TX,EC,OB],[('diff of old and new metadata at commit','PreCommitAddRemove, PreCommitAddRemoveMetadata'),('append to every queue','ObserverList::Commit')],
 [('eventLists','observer queues and pending events',EC)],['events returned by Poll'])
p('C16','Polling returns each event once, first in first out, per observer',
 "Polling an observer removes and returns its oldest undelivered event, or returns false and leaves the output untouched if there is none; other observers' queues are unaffected. After an observer is stopped it yields nothing and receives nothing, while every other observer keeps its queue and continues to receive events.",
 ['histories'],'every number of observers and every order of watching, polling, stopping and committing',
 "tests never have two observers of the same event nor stop one of several",
 [OB,LK],[('per-observer queue','Observer::Poll, Lock::Watch, Lock::StopWatching')],[],['Poll results and observer validity'])
p('C17','Global components behave as one optional value, independent of entities',
 "A global component is absent until set (or mutably accessed) under add/remove access, then reads back its last value, is default-constructed when created without a value, and is absent again after removal. Const access never creates it, entity operations never touch it, and after every commit its reported presence and its stored value agree for all readers.",
 ['histories','inputs','programs'],'every sequence of Set, Get, const Get, Unset and commits through every lock type',
 "the test sequence never uses const access on an absent global component under add/remove permission and never combines two transactions on it concurrently with entity changes",
 [LK,TX],[('global presence bits and slot 0 of the storage','Lock::Get/Set/Unset/Has, Transaction::~Transaction')],[('globalReadMetadata/globalWriteMetadata','presence of global components',EC)],['Has/Get on locks'])
p('C18','Lock conversions never grant a permission the transaction does not hold',
 "Every way of obtaining a lock from another lock - conversion, subset, read-only subset, dynamic try-lock - yields only permissions (read, write, add/remove, per component type) that the underlying transaction holds; a dynamic try-lock succeeds exactly when all requested permissions are held. All locks of one transaction share it, and it ends only when the last of them is gone.",
 ['programs','configurations'],'every source permission list, every requested permission list, every chain of conversions',
 "tests try a handful of allowed conversions and one refused one; the permission lattice is combinatorial and refusals of add/remove are not tested",
 [LK,PE],[('compile-time permission traits','is_read_allowed, is_write_allowed, is_add_remove_allowed, is_lock_subset'),('runtime permission bitsets','DynamicLock::TryLock, Lock::permissions')],[],['success of conversions and behaviour of the resulting lock'])
p('C19','Nested transactions on one instance are refused, bookkeeping stays exact',
 "Starting a transaction on an instance on which the same thread already has an active transaction throws and leaves that transaction working; transactions on different instances may overlap up to the per-thread limit, beyond which starting throws. When a transaction ends, the thread can immediately start a new one on that instance, regardless of the order in which overlapping transactions end.",
 ['histories'],'every sequence of starts and ends over any number of instances on a thread, in any nesting order',
 "tests nest once and overlap two instances once, ending in stack order",
 [TX,CC],[('per-thread list of active instances','BaseTransaction constructor and destructor')],[('activeTransactions','instances with an active transaction on this thread',CC)],['exceptions on transaction start'])
p('C20','Transaction and instance identifiers are unique and increasing',
 "Every transaction gets an identifier that no other transaction of the process has, greater than those of all transactions started before it, and every instance gets a distinct instance identifier (distinct in its exposed width for the first 255 instances, never zero). Handles reveal the identifier of the instance that made them.",
 ['schedules','histories'],'every interleaving of concurrent starts in all threads',
 "uniqueness under concurrency is only sampled; the tests check one final count",
 [TX,EC,CC,EN],[('atomic pre-increment of process-wide counters','BaseTransaction, ECS constructor')],[],['GetTransactionId, GetInstanceId'])
p('C21','Entity handles convert, compare and hash consistently',
 "Converting a handle to a 64-bit integer and back gives the same handle and distinct handles give distinct integers; equality, inequality, ordering and hashing agree with each other and ordering is a strict total order. A handle is falsy exactly when its generation is zero, and packing an instance identifier into a generation and extracting both parts again is lossless.",
 ['inputs','configurations'],'every index, generation and identifier value; every supported width configuration',
 "2^64 values; tests use one handle as a map key",
 [EN],[('bit packing','GenerationWithIdentifier, GenerationWithoutIdentifier, IdentifierFromGeneration, Entity constructors and operators, std::hash')],[],['conversion and comparison results'])
p('C22','An entity view iterates, indexes and slices exactly its range',
 "An entity view presents a fixed range of an entity list: indexing 0..size()-1, forward iteration and reverse iteration visit exactly the elements of that range in (reverse) order, and a subview is exactly the requested part clipped to the view's end. In the default mode anything outside the range is refused with an exception instead of being read.",
 ['inputs'],'every list length, range, offset, count (including the default) and position',
 "the tests only index and range-for over whole lists; subviews and reverse iteration are not exercised at all",
 [VW],[('index arithmetic and bounds checks','EntityView, EntityView::iterator')],[],['elements seen through a view'])
p('C23','Performance traces record each lock event once, in order, within the buffer',
 "Between starting and stopping a trace, every lock and transaction event is recorded exactly once with its type and thread, in order, up to the fixed capacity; stopping returns exactly the recorded events and later events never overflow the buffer. Starting twice or stopping without starting is refused, and a new trace starts empty.",
 ['histories','schedules','configurations'],'every number of events and start/stop sequence, concurrent recording from any number of threads',
 "the tests do not start a trace at all; only the benchmark does and checks nothing",
 [TR,ST,EC],[('atomic slot allocation','TraceInfo::Trace/StartTrace/StopTrace'),('trace points in lock functions','ComponentIndex')],[],['events returned by StopTrace'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
