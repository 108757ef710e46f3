"""The database schema as released: what older versions of the software wrote."""

# Statements to get from each version of the schema to the next; a frozen copy.
STEPS = {
    0: [
        'CREATE TABLE [vouchers] ( [number] text, [created] text, [state] text DEFAULT "pending", [finished] text DEFAULT NULL, [token-count] num DEFAULT NULL, PRIMARY KEY([number]) )',
        'CREATE TABLE [tokens] ( [text] text, [voucher] text, PRIMARY KEY([text]) FOREIGN KEY([voucher]) REFERENCES [vouchers]([number]) )',
        'CREATE TABLE [unblinded-tokens] ( [token] text, PRIMARY KEY([token]) )',
        'CREATE TABLE [lease-maintenance-spending] ( [id] integer, [started] text, [finished] text, [count] integer, PRIMARY KEY([id]) )',
    ],
    1: [
        'ALTER TABLE [vouchers] ADD COLUMN [public-key] text',
    ],
    2: [
        'ALTER TABLE [vouchers] ADD COLUMN [counter] integer DEFAULT 0',
    ],
    3: [
        'ALTER TABLE [tokens] ADD COLUMN [counter] integer NOT NULL DEFAULT 0',
        'ALTER TABLE [vouchers] ADD COLUMN [expected-tokens] integer NOT NULL DEFAULT 32768',
    ],
    4: [
        'CREATE TABLE [invalid-unblinded-tokens] ( [token] text, [reason] text, PRIMARY KEY([token]) )',
    ],
    5: [
        'CREATE TABLE [redemption-groups] ( [rowid] INTEGER PRIMARY KEY, [voucher] text, [spendable] integer, [public-key] text )',
        'INSERT INTO [redemption-groups] ([voucher], [public-key], [spendable]) SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed"',
        'ALTER TABLE [vouchers] ADD COLUMN [sequestered-count] integer NOT NULL DEFAULT 0',
        'ALTER TABLE [unblinded-tokens] ADD COLUMN [redemption-group] integer DEFAULT 1',
    ],
    6: [
        'CREATE TABLE [event-stream] ( [sequence-number] INTEGER PRIMARY KEY AUTOINCREMENT, [statement] TEXT, [important] BOOL )',
    ],
    7: [
        'UPDATE [vouchers] SET [created] = datetime([created], "utc") || "+00:00"',
        'UPDATE [lease-maintenance-spending] SET [started] = datetime([started], "utc") || "+00:00"',
        'UPDATE [lease-maintenance-spending] SET [finished] = datetime([finished], "utc") || "+00:00" WHERE [finished] IS NOT NULL',
    ],
    8: [
        "ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'",
    ],
}


def create(conn, version):
    """Create an empty database of a version of the schema."""
    conn.execute("CREATE TABLE [version] AS SELECT 0 AS [version]")
    for v in range(version):
        for s in STEPS[v]:
            conn.execute(s)
        conn.execute("UPDATE [version] SET [version] = [version] + 1")
