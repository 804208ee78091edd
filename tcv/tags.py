"""Which further properties an obligation carries.  The contracts name the properties an obligation states; here it is
listed which other properties have this obligation as a part of their argument, so that the check of each of those
decides it too instead of relying on the check of another property for it.  (prefix of the obligation's text -> properties)"""
EXTRA = [
    ('throws exactly when the entity or component', 'C01 C11 C12'),
    ('throws exactly when the entity does not exist', 'C11'),
    ('throws exactly when the global component is absent', 'C01 C11 C12'),
    ('the modification is marked for commit', 'C03 C11 C12'),
    ('added component marks the entity set', 'C10 C13 C15'),
    ('added global component marks the entity set', 'C03 C11 C15'),
    ('component exists afterwards', 'C01 C10'),
    ('component ', None),
    ('removal of ', 'C11 C13 C15'),
    ('removal is marked for commit', 'C03 C11 C15'),
    ('value of removed ', 'C11'),
    ('entity no longer exists', 'C01 C09'),
    ('destruction is marked', 'C03 C10 C13 C15'),
    ('creation is marked', 'C10 C13 C15'),
    ('grown storage of ', 'C03 C10'),
    ('global component is present', 'C01 C11'),
    ('global component is absent', 'C01 C11'),
    ('reference yields the expected value', 'C11'),
    ('reference yields the expected global value', 'C01 C12'),
    ('reference designates the stored global value', 'C12'),
    ('returns the stored global value', 'C12'),
    ('a modification mark is never lost', 'C03 C11 C12 C13 C15 C17'),
    ('committed data is untouched', 'C02 C03'),
    ('unflagged entity set is unchanged', 'C10 C13 C15'),
    ('unflagged presence of global', 'C03 C11 C15'),
    ('unflagged value of global', 'C03 C12'),
    ('exactly the presence of global', 'C03 C11'),
    ('the written value of global', 'C03 C12'),
    ('a value of global ', 'C12'),
    ('every lock is released', 'C04 C05'),
    ('the write lock is only taken when it is free', 'C08'),
    ('a commit starts only when no reader is active', 'C08'),
    ('no reader gets in during a commit', 'C08'),
    ('releasing the commit lock frees the readers', 'C05'),
    ('the committed entity count', 'C03 C10'),
]
CROSSED = ('after commit: ', 'next transaction: ', 'invariant: ')
_memo = {}
def extra(tag):
    r = _memo.get(tag)
    if r is None:
        t = tag
        for p in CROSSED:
            if t.startswith(p): t = t[len(p):]
        e = set()
        for p, props in EXTRA:
            if props and t.startswith(p): e |= set(props.split())
        if t.startswith('component ') and t.endswith(' is removed'): e |= {'C01'}
        if t.startswith('access to shared data is covered by a lock ('):
            w, what = t[t.index('(') + 1:].split(' ', 1)[0] == 'write', t
            if 'readComponents' in what or 'readValidEntities' in what or 'globalReadMetadata' in what: e |= {'C01', 'C03', 'C04'} if w else {'C01', 'C04'}
            elif 'eventLists' in what or 'heap:' in what: e |= {'C15'}
            elif w: e |= {'C02', 'C04'}
        if t.startswith('precondition of ') and t.endswith('the data is locked'): e |= {'C04'}
        _memo[tag] = r = tuple(sorted(e))
    return r
