SPECIFICATION MCSpec
CONSTANTS MaxN = 3 MaxT = 3 MaxP = 4
INVARIANTS OneSlotEach RowsPartition PlainStored LinesAreRows WriteRead
