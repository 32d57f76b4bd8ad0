T = 'bounded symbolic execution of the real Python code, z3 decides every assertion on every path'

prop('C01', 'Order-preserving encryption is strictly monotone',
     'For any key and any two integers in the plaintext range, the smaller one gets the smaller order-preserving ciphertext and equal ones get the same ciphertext, however often and in however many sessions they are encrypted. '
     'Every ciphertext lies in the output range (the signed 64-bit column it is stored in), the decimal text of a number encrypts like the number, and integers outside the plaintext range are refused.',
     ['inputs', 'configurations'], 'every key/coin tape, every pair of plaintexts, every plaintext/ciphertext range pair with input range no larger than output range',
     'A handful of sample numbers under one key cannot show that the recursive range splitting never swaps or merges two neighbours for some coin outcome; the failures sit at split points that depend on the pseudo-random tape.',
     ['scheduler/crypto/ope/ope.py', 'scheduler/crypto/ope/stat.py', 'scheduler/crypto/ope/hgd.py', 'scheduler/crypto/encrypt.py'],
     [('OPE.encrypt / encrypt_recursive', 'scheduler/crypto/ope/ope.py'), ('sample_hgd, sample_uniform', 'scheduler/crypto/ope/stat.py'),
      ('HGD.rhyper', 'scheduler/crypto/ope/hgd.py'), ('OPECipher', 'scheduler/crypto/encrypt.py')],
     technique=T + '; inductive recursion step plus complete unrolling on small ranges',
     note='Complete for domains up to 3 and ranges up to 5 at symbolic offsets (thorough: 5/8), all coin tapes; one inductive recursion step for interval sizes up to 2^64; the production 64-bit cipher in windows around 0, 2^31 and both ends. '
          'Trusts: HMAC/AES-CTR as an arbitrary deterministic bit source, sampler contract for large urns (checked on the real sampler for urns up to 4+4), relational model of float rounding above 2^53.')

prop('C02', 'Order-preserving decryption inverts encryption and rejects non-ciphertexts',
     'For any key, decrypting the order-preserving ciphertext of an integer (as a number or as its decimal text) gives back exactly that integer. '
     'A number that is not the ciphertext of any plaintext under that key is rejected with an error; it never decrypts to some value.',
     ['inputs', 'configurations'], 'every key/coin tape, every plaintext of the range, every integer offered as a ciphertext',
     'Encryption and decryption walk the same random tree from different ends; agreement on sampled values says nothing about the tapes and interval boundaries where the two walks diverge.',
     ['scheduler/crypto/ope/ope.py', 'scheduler/crypto/ope/stat.py', 'scheduler/crypto/encrypt.py'],
     [('OPE.decrypt / decrypt_recursive', 'scheduler/crypto/ope/ope.py'), ('sample_uniform', 'scheduler/crypto/ope/stat.py'), ('OPECipher.decrypt', 'scheduler/crypto/encrypt.py')],
     technique=T,
     note='Complete for domains up to 3 and ranges up to 5 at symbolic offsets, every integer in [-20,20] as candidate ciphertext, all coin tapes (thorough: 5/8); production cipher in six-value windows around 0, 2^31 and both ends of the 64-bit range. Same stubs as C01.')

prop('C03', 'Text and number encryption of encrypted columns is an exact, deterministic bijection',
     'For any key and any text without trailing NUL characters (any length, any Unicode characters), decrypting the AES ciphertext that a column stores gives back exactly that text. '
     'Under one key two texts have the same ciphertext exactly when they are equal, so equality on ciphertexts decides equality on plaintexts, in every session and process; ciphertexts are plain ASCII base64 text.',
     ['inputs', 'configurations'], 'every key, every text up to the bounded length over all Unicode code points, every pair of texts',
     'Padding and encoding mistakes show only at particular byte lengths and for multi-byte characters at a block boundary; sampled strings miss them.',
     ['scheduler/crypto/encrypt.py'], [('AESCipher.encrypt / decrypt / pad / unpad', 'scheduler/crypto/encrypt.py')],
     technique=T,
     note='Every text up to 18 characters ASCII and 6 characters over all of Unicode, pairs of texts, symbolic keys. Trusts: AES as a per-key permutation of 16-byte blocks, SHA-256 without collisions, base64 library contract.')

prop('C04', 'The other reversible ciphers decrypt exactly what they encrypted',
     'For every text or byte string, SM4 column encryption, AES over bytes, the AES-CBC helper and Fernet encryption return exactly the original data on decryption with the same key, for every length including those at block boundaries. '
     'SM4 and AES-CBC ciphertexts are deterministic and distinct for distinct data; SM4 of a number decrypts to its decimal text.',
     ['inputs', 'configurations'], 'every text or byte string up to the bounded length, every key',
     'The failures are at block boundaries, at data that looks like padding, and for multi-byte text, which a few examples do not visit.',
     ['scheduler/crypto/encrypt.py'], [('SM4CipherBytes, AESCipherBytes, AESCrypto, FernetCipher', 'scheduler/crypto/encrypt.py')],
     technique=T,
     note='Texts and byte strings up to about 18 units (all Unicode up to 5). Trusts: block ciphers as permutations, library padding contracts (PKCS#7, gmssl).')

prop('R01', 'A WHERE condition selects the same rows as on plaintext data',
     'For every table content and every condition EulerDB accepts (comparisons, IN, BETWEEN, IS NULL, LIKE on plaintext columns, AND / OR / NOT over plaintext and encrypted columns of integer, floating-point and text type), '
     'the query on the encrypted table returns exactly the rows the same query returns on a plaintext table with the same content, with their original values. '
     'A condition that cannot be evaluated on ciphertexts is refused with an error instead of selecting other rows.',
     ['inputs', 'configurations'], 'all values of the stored rows and of the constants, NULLs included, over a catalogue of condition shapes',
     'A wrong operator mapping, a constant encrypted with the wrong column key or type, or a lost NOT changes results only for particular values on particular sides of the constant; tests compare a few rows.',
     ['scheduler/handers/clause/sql_where.py', 'scheduler/handers/rewrite_hander.py', 'scheduler/crypto/encrypt.py', 'sql_parsing/formatting.py', 'sql_parsing/sql_parser.py',
      'scheduler/backend/execution_context.py', 'scheduler/backend/executors/remote_executor.py', 'scheduler/backend/executors/decrypt_executor.py'],
     [('SQLWhere.rewrite / encrypt_operand', 'scheduler/handers/clause/sql_where.py'), ('Rewriter.rewrite_query', 'scheduler/handers/rewrite_hander.py'),
      ('Formatter', 'sql_parsing/formatting.py'), ('ExecuteContext invoke', 'scheduler/backend/execution_context.py')],
     technique=T,
     note='About 60 atomic conditions, 24 combinations and 46 unsupported shapes (refuse or answer right); two rows of symbolic values (thorough: three) plus a row of NULLs; integers of 32 bits, texts of 3 letters, floats that are multiples of 1/8 up to 8. '
          'The statements run through the real parser, rewriter, formatter, executors and decryption; the server is a MySQL subset evaluated symbolically; ciphers are replaced by their contracts (C01-C07).')

prop('C06', 'The numeric encoding of encrypted columns is exact and monotone',
     'A number written into an encrypted column reads back exactly: every 64-bit integer of an INT column and every decimal number of a FLOAT or DOUBLE column, from its text ciphertext and from its ordering ciphertext. '
     'Numbers are encoded in the order of their values, equal numbers equally, within the range of the order-preserving cipher; the text or boolean standing for a number encodes like the number; text of text columns is kept as it is. '
     'The stretching function is increasing, odd and undone by its inverse.',
     ['inputs', 'configurations'], 'every integer, every decimal number in the stated ranges with exact IEEE double arithmetic, every pair of numbers',
     'A rounding or scaling mistake shows for some decimals or magnitudes only; sampled numbers nearly always round the right way.',
     ['scheduler/crypto/encrypt.py'], [('encode, decode, stretch, inverse_stretch', 'scheduler/crypto/encrypt.py')],
     technique=T,
     note='IEEE rounding is modelled exactly (fork on the binade, integer significand) for decimals k/10^d in six ranges per type (thorough: twelve); pairs of decimals up to 9e6 with 6 places over exact reals; 64-bit integers; texts up to 4 characters (thorough: 7). '
          'Trusts: repr of a float is its shortest decimal (at most 15 digits).')

prop('C05', 'LIKE on a column with fuzzy search selects the same rows as on plaintext',
     'For every stored text and every pattern of words of at least three characters separated by % (at either end or in between), LIKE and NOT LIKE on an encrypted column with fuzzy search select exactly the rows they select on plaintext, '
     'whatever characters text and pattern consist of, alone or inside AND / OR / NOT. Patterns that cannot be evaluated (shorter words, the _ wildcard, escapes, columns, floating-point columns) are refused with an error.',
     ['inputs'], 'every stored text and every pattern word up to the bounded length, classes of characters, NULL',
     'The result depends on how the pieces of a text and of a pattern line up and overlap and on the kinds of characters in each; a few sample words always line up.',
     ['scheduler/crypto/encrypt.py', 'scheduler/handers/clause/sql_where.py', 'scheduler/handers/clause/sql_values.py'],
     [('FuzzyCipher', 'scheduler/crypto/encrypt.py'), ('SQLWhere.rewrite (like)', 'scheduler/handers/clause/sql_where.py')],
     technique=T,
     note='Texts up to 6 characters (thorough: 9), patterns of one or two words of 2 to 4 characters (thorough: three words, 6), letters and digits, space, punctuation (thorough: also CJK); conditions combined with AND/OR/NOT; numbers of nine sample values. '
          'Trusts: AES ciphertexts match only as whole ciphertexts; case-sensitive collation.')

prop('C07', 'Sums and averages of homomorphic ciphertexts are those of the numbers',
     'A number encrypted with the additively homomorphic cipher decrypts to itself, in any session with the same key. The product of ciphertexts modulo the squared modulus decrypts to the sum of the numbers, '
     'a comma-separated list of ciphertexts marked SUM or AVG to their sum or average, and a product with a count to the average rounded to four places, for negative numbers too. Numbers that do not fit the key are refused.',
     ['inputs', 'configurations'], 'every list of numbers up to the bounded length whose sum fits the key, three keys',
     'A wrong modulus, a lost sign or a wrong separator gives plausible numbers that are right for small positive samples.',
     ['scheduler/crypto/encrypt.py'], [('HomomorphicCipher', 'scheduler/crypto/encrypt.py')],
     technique=T,
     note='Lists of up to 4 numbers (thorough: 8), three concrete keys, every value that fits. Trusts: the Paillier library contract (ciphertexts free integers, products modulo n^2 add plaintexts); averages exact up to double precision.')

PIPE = ['scheduler/handers/rewrite_hander.py', 'scheduler/handers/clause/sql_clause.py', 'scheduler/crypto/encrypt.py', 'sql_parsing/formatting.py', 'sql_parsing/sql_parser.py', 'sql_parsing/utils.py',
        'scheduler/backend/execution_context.py', 'scheduler/backend/executors/remote_executor.py', 'scheduler/backend/executors/decrypt_executor.py']

prop('R03', 'INSERT stores exactly the values it names',
     'An INSERT that EulerDB accepts adds exactly the rows it adds to a plaintext table: every value of an encrypted column is stored under every encryption the column has and each of them decrypts to the value the plaintext table holds, '
     'plaintext columns hold their values unchanged, columns that are not named are NULL, and reading the rows back gives what a plaintext table gives. It works for one row and for several, with columns in any order, with NULL, negative, zero and textual constants. '
     'An INSERT that the plaintext table refuses (wrong number of values, a column named twice, NULL for a NOT NULL column) or that cannot be encrypted (expressions, queries) is refused with an error and leaves the table unchanged.',
     ['inputs', 'configurations'], 'all values of the constants over a catalogue of statement shapes and column types',
     'A value paired with the wrong column, key or encryption, or a row dropped for particular values, shows only for particular combinations of columns, values and rows.',
     PIPE + ['scheduler/handers/clause/sql_values.py', 'scheduler/handers/clause/sql_columns.py'],
     [('SQLValues / SQLRows / SQLUnion', 'scheduler/handers/clause/sql_values.py'), ('SQLColumns', 'scheduler/handers/clause/sql_columns.py'), ('to_insert_call, to_values', 'sql_parsing/utils.py')],
     technique=T,
     note='About 110 statement shapes; integers of 32 bits (64 for plaintext), texts of up to 4 arbitrary characters without quotes and backslashes, floats in eighths up to 8, NULL; up to 4 rows. Every stored ciphertext is decrypted by the real decryption over the cipher contracts. '
          'The server is a MySQL subset evaluated symbolically.')

prop('R04', 'UPDATE and DELETE change exactly the rows and values they change on plaintext data',
     'For every table content, an UPDATE or DELETE that EulerDB accepts changes or removes exactly the rows that the same statement changes or removes in a plaintext table, and leaves every other row and column as it was. '
     'After it, every encryption of every value decrypts to the value the plaintext table holds, so later searches, range conditions and reads agree. '
     'Statements that cannot be carried out on ciphertexts (arithmetic on encrypted columns, copying between columns) are refused with an error and change nothing.',
     ['inputs', 'histories'], 'all values of the stored rows and constants, over a catalogue of statement shapes and sequences of two statements',
     'An encryption of a column that is not updated with the others, or a condition that selects one row more, goes unnoticed until another kind of query meets particular values.',
     PIPE + ['scheduler/handers/clause/sql_set.py', 'scheduler/handers/clause/sql_where.py'],
     [('SQLSet', 'scheduler/handers/clause/sql_set.py'), ('SQLWhere', 'scheduler/handers/clause/sql_where.py')],
     technique=T,
     note='About 150 statement shapes over one or two rows of symbolic values plus a row of NULLs, and sequences of two statements; integers of 32 bits, texts of 3 letters, floats in eighths. Every stored ciphertext is decrypted after the statement.')

prop('S01', 'An expression keeps its meaning through parsing and formatting',
     'Every expression of MySQL that EulerDB accepts (arithmetic, comparison, logical, LIKE, IN, BETWEEN, IS, CASE, bit and function-call operators, nested in each other with and without parentheses) '
     'is sent to the server in a form that has the same value for all values of the columns, NULL included: operator precedence, grouping, negation and the order of operands are kept. What EulerDB cannot keep is refused with an error.',
     ['inputs', 'configurations'], 'all pairs of nested operators with and without parentheses, all values of the operands',
     'Each of thousands of operator pairs can lose its parentheses separately, and the result differs only for some values; tests check a few statements literally.',
     ['sql_parsing/sql_parser.py', 'sql_parsing/formatting.py', 'sql_parsing/utils.py', 'sql_parsing/keywords.py', 'parsing/infix.py'],
     [('parse_mysql / expression grammar', 'sql_parsing/sql_parser.py'), ('Formatter, Operator', 'sql_parsing/formatting.py'), ('infix_notation', 'parsing/infix.py'), ('to_json_operator', 'sql_parsing/utils.py')],
     technique='the statement before and after the real parser and formatter is evaluated by a MySQL subset over symbolic column values, z3 decides equality on every path',
     note='Every pair of 43 operator and function forms (quick: inner operators one per precedence level) and 17 further forms that may be refused; operands integers in -2..3 or NULL. Depth two. Trusts the MySQL grammar and semantics of lib/minisql.py.')

prop('S02', 'Constants, names, comments and layout reach the server as written',
     'Text constants (with any characters, doubled quotes and backslash escapes), numbers, quoted names (with any characters, reserved words included) of a statement reach the server with exactly the value that was written, whatever clause they stand in. '
     'Comments, kinds of blanks and the letter case of keywords do not change a statement.',
     ['inputs'], 'every character of constants, names, comments and blanks up to the bounded length, in a catalogue of statements',
     'A wrong escape shows only for particular characters next to each other; sampled constants hardly contain them.',
     ['sql_parsing/sql_parser.py', 'sql_parsing/formatting.py', 'sql_parsing/utils.py', 'sql_parsing/__init__.py', 'parsing/core.py', 'parsing/tokens.py', 'parsing/whitespaces.py', 'dots/__init__.py'],
     [('literal and identifier grammar', 'sql_parsing/utils.py'), ('escape, should_quote, _literal', 'sql_parsing/formatting.py'), ('comments, Whitespace', 'sql_parsing/sql_parser.py'), ('split_field', 'dots/__init__.py')],
     technique='the parser (parsing, sql_parsing) and the formatter are executed symbolically on statement text with symbolic characters, z3 decides every assertion on every path',
     note='Constants of up to 3 characters (thorough: 4) over all of Unicode in 11 statements; numbers of up to 4 digits (thorough: 6); comments of 2 characters; names of 1 character in 16 places and 2 in three (thorough: 4), every reserved word of MySQL 8; 11 statements with symbolic blanks and letter case around each keyword. '
          'Names with backslashes or control characters are outside the bounds. Compared with a MySQL tokenizer written for the check.')

prop('R05', 'SELECT returns the columns and rows of the plaintext database, decrypted',
     'For every table content, a SELECT that EulerDB accepts (columns in any order and repeated, *, DISTINCT, aliases, constants, counts and functions of plaintext columns, inner, left and right joins on equality of encrypted or plaintext columns, selections from a nested SELECT) '
     'returns exactly the rows of the plaintext database: every value in its place and decrypted with the key of its own column, NULL as NULL, no row or column more or less. '
     'Projections and joins that ciphertexts cannot answer (columns encrypted under different keys, expressions of encrypted columns) are refused with an error instead of returning something else.',
     ['inputs', 'configurations'], 'all values of the stored rows over a catalogue of projections, joins and nestings',
     'Columns are decrypted by their position in the rewritten select list; a list that is off by one or a join on the wrong encryption returns wrong values only for some tables and some queries.',
     PIPE + ['scheduler/handers/clause/sql_select.py', 'scheduler/handers/clause/sql_from.py', 'scheduler/handers/decrypt_handler.py', 'scheduler/handers/clause/utils.py'],
     [('SQLSelect', 'scheduler/handers/clause/sql_select.py'), ('SQLFrom', 'scheduler/handers/clause/sql_from.py'), ('DecryptHandler', 'scheduler/handers/decrypt_handler.py')],
     technique=T,
     note='About 55 shapes that must be answered and 60 that may be refused; two rows (thorough: three) and a row of NULLs in the first table, one or two rows in the joined ones; integers of 32 bits, texts of 3 letters, floats in eighths.')

prop('R07', 'Ordering, limits, groups and extrema over encrypted columns are those of the plaintext values',
     'For every table content, ORDER BY on encrypted and plaintext columns (several columns, ascending and descending, NULLs included), LIMIT and OFFSET, MAX and MIN of encrypted columns, and GROUP BY / HAVING on plaintext columns with extrema of encrypted ones '
     'return the same rows in the same order as on the plaintext database. '
     'What cannot be calculated on ciphertexts (ordering by text, functions and arithmetic of encrypted columns, aliases hiding a column) is refused with an error; the server is never asked to order, compare or calculate with ciphertexts that do not preserve the result.',
     ['inputs', 'configurations'], 'all values of the stored rows and constants, over a catalogue of statement shapes',
     'A lost direction, a NULL on the wrong end or a maximum over the wrong ciphertext shows only for particular values and sign combinations.',
     PIPE + ['scheduler/handers/clause/function.py', 'scheduler/handers/clause/sql_select.py', 'scheduler/schema/metadata.py'],
     [('OrderBy', 'scheduler/handers/clause/function.py'), ('SQLSelect, FUNC_CIPHERS', 'scheduler/handers/clause/sql_select.py'), ('DecryptHandler', 'scheduler/handers/decrypt_handler.py')],
     technique=T,
     note='About 80 shapes that must be answered and 70 that may be refused; two rows (thorough: three) and a row of NULLs; integers of 32 bits, texts of 2 letters, floats in eighths. Rows that compare equal keep the order of insertion on both sides. Sums and averages of encrypted columns are property R12.')

prop('R06', 'CREATE TABLE makes the declared table and describes it truly',
     'For every declaration that EulerDB accepts (column types and sizes, NOT NULL, DEFAULT, AUTO_INCREMENT, COMMENT, primary, unique and foreign keys, indexes, table options) with every choice of encryptions per column, '
     'the stored table accepts and refuses the same rows as the declared plaintext table: every value of a declared type fits its ciphertext columns, defaults are stored under every encryption of the column and read back as declared, '
     'keys refuse the same duplicates and dangling references, and the metadata describes exactly the declared columns. Declarations that ciphertexts cannot carry out are refused with an error and create nothing.',
     ['inputs', 'configurations'], 'all values of the rows inserted and of the defaults, over a catalogue of declarations and encryption choices',
     'A dropped option, a ciphertext column that is too small or a default stored under one of several encryptions only shows later, for particular rows; tests compare a few generated statements literally.',
     PIPE + ['scheduler/handers/table.py', 'scheduler/schema/metadata.py', 'scheduler/handers/clause/sql_key.py'],
     [('rewrite_table: columns and sizes', 'scheduler/handers/table.py'), ('create_table', 'sql_parsing/formatting.py'), ('TableMeta', 'scheduler/schema/metadata.py')],
     technique=T,
     note='About 110 declarations times encryption choices, rows of integers of 32 bits, texts of up to 3 characters (lengths: full size by an arithmetic bound on the ciphertext contracts), floats in eighths, NULL. Keys and sizes are enforced by the MySQL subset of lib/minisql.py.')

prop('R08', 'ALTER TABLE and DROP TABLE act on the stored table as on the plaintext one',
     'For every history of CREATE, INSERT, UPDATE, DELETE, ALTER TABLE (add keys, indexes and foreign keys) and DROP TABLE (with IF EXISTS) that EulerDB accepts, the set of tables, their keys, their contents and the rows they accept afterwards are those of the plaintext database after the same history, '
     'and the metadata describes exactly the tables that exist. A statement that the plaintext database refuses, or that ciphertexts cannot carry out, is refused with an error and changes nothing.',
     ['histories', 'inputs'], 'all values of the rows in a catalogue of histories of up to six statements',
     'A key put on the wrong ciphertext column, or metadata kept for a dropped table, only shows in a later statement for particular values.',
     PIPE + ["scheduler/handers/clause/sql_key.py", "scheduler/schema/metadata.py"],
     [('alter / drop rewriting', 'scheduler/handers/rewrite_hander.py'), ('SQLKey', 'scheduler/handers/clause/sql_key.py'), ('delete_sql', 'scheduler/schema/metadata.py')],
     technique=T,
     note='About 75 histories; integers of 32 bits, texts of 2 letters. Adding, dropping and modifying columns is refused by EulerDB and covered as such.')

prop('R02', 'The database server never gets plaintext of encrypted columns',
     'For every statement EulerDB accepts or refuses, with every choice of its constants, the texts sent to the database server depend on the values of encrypted columns only through ciphertexts: two statements that differ only in constants stored in or compared with encrypted columns '
     '(and have the same order and equalities among them, which order-preserving and deterministic encryption reveal by design) lead to the same texts, apart from the ciphertexts. '
     'Names of tables, names of encrypted columns and keys never occur in them. This holds for INSERT, UPDATE, DELETE, SELECT with conditions, HAVING, GROUP BY and nested queries, defaults in CREATE TABLE and statements EulerDB does not know; a ciphertext is not the plaintext.',
     ['inputs', 'configurations'], 'all pairs of values of the constants, over a catalogue of about 670 statements',
     'Every clause that is passed through unrewritten leaks; which clauses are rewritten is spread over a dozen classes, and tests compare results only. That a text is independent of a value cannot be seen from one run.',
     PIPE + ['scheduler/handers/clause/sql_where.py', 'scheduler/handers/clause/sql_values.py', 'scheduler/handers/clause/sql_set.py', 'scheduler/handers/clause/sql_select.py', 'scheduler/crypto/encrypt.py', 'scheduler/crypto/ope/ope.py'],
     [('SQLWhere', 'scheduler/handers/clause/sql_where.py'), ('SQLValues', 'scheduler/handers/clause/sql_values.py'), ('SQLSet', 'scheduler/handers/clause/sql_set.py'), ('RewriteHandler', 'scheduler/handers/rewrite_hander.py'), ('OPECipher', 'scheduler/crypto/encrypt.py')],
     technique=T,
     note='Self-composition: each statement is run twice with independent symbolic constants and ideal ciphers that return the same ciphertexts in both runs. Integers of 32 bits, texts of 3 letters (thorough: 2, 5, 20), floats in eighths. Lengths of texts, numbers of rows and equality or order patterns are not protected. Known finding K05: the production order-preserving cipher is the identity.')

prop('R09', 'Acknowledged statements survive failures, lost connections, crashes and restarts; failed ones leave everything readable',
     'For every history of CREATE, ALTER and DROP TABLE, INSERT, UPDATE and DELETE in which a call to the database server or to the metadata database (connect, execute, commit) fails before or after its effect, the connection is lost, or the EulerDB process ends at any such call: '
     'afterwards clients read the contents that the acknowledged statements made; a statement reported as failed (or interrupted by a crash) has either its full effect or none, and does not damage other tables or make them unreadable; later statements work as if the failure had not happened, without a restart; '
     'restarting the process at any time changes nothing that clients read, and the metadata read back (names, ciphertext columns, keys) is the one written. Only an empty table whose CREATE was reported as failed may appear late.',
     ['crash points', 'fault schedules', 'histories', 'inputs'], 'every place and kind of one failure or crash (thorough: two) in a catalogue of histories of up to seven statements, all values of the rows',
     'The metadata is the only key to the data: one statement order, one missing rollback or one stale entry in memory makes a table unreadable, and only if a call fails at that very place.',
     PIPE + ['scheduler/schema/metadata.py', 'scheduler/backend/executors/remote_executor.py', 'dbutils/pooled_db.py', 'dbutils/steady_db.py'],
     [('Delta.update_delta / delete_delta / load_delta', 'scheduler/schema/metadata.py'), ('RemoteExecutor.call', 'scheduler/backend/executors/remote_executor.py'), ('SteadyDBConnection', 'dbutils/steady_db.py')],
     technique=T,
     note='The place and the kind of the failure are symbolic integers; 5 kinds (error, error and lost connection, effect and lost answer, crash before, crash after) at every connect, execute, executemany and commit of the statement server and the metadata server. Statements run one after another (no concurrent clients). Metadata in MySQL with the table of data/schema-mysql.sql. Known finding K06: CREATE TABLE replaces an existing table.')

prop('R10', 'SUM and AVG of encrypted columns are those of the plaintext values',
     'For every table contents (any number of rows, NULLs anywhere, negative and fractional numbers) SELECT with SUM and AVG of columns that have arithmetic encryption returns what the plaintext database returns: the sum of the selected rows (exactly), their average (to four digits), NULL when there is no value, '
     'one row whatever the number of rows, together with COUNT, MAX, MIN and sums of plaintext columns in the same SELECT. This holds with WHERE, ORDER BY and LIMIT, for several sums of columns with different keys, after any history of INSERT, UPDATE and DELETE, and when other requests run between the statements that EulerDB sends. '
     'Sums that cannot be calculated on ciphertexts (GROUP BY, joins, expressions, DISTINCT, columns without arithmetic encryption) are refused with an error: the server is never asked to add up ciphertexts, and no unrelated number is returned.',
     ['inputs', 'histories', 'schedules'], 'all values of the rows and constants, all places for another request, over a catalogue of SELECTs and NULL patterns',
     'A wrong factor, a NULL, an empty selection or a variable shared with another request gives a plausible but wrong number; tests sum one fixed table.',
     PIPE + ['scheduler/schema/metadata.py', 'scheduler/backend/executors/remote_executor.py', 'scheduler/crypto/encrypt.py', 'scheduler/handers/clause/sql_select.py'],
     [('RemoteExecutor.inject_procedure', 'scheduler/backend/executors/remote_executor.py'), ('Delta.set_sum_feature / get_paillier_procedure_info / modify_sum_query / modify_avg_query', 'scheduler/schema/metadata.py'), ('HomomorphicCipher.decrypt', 'scheduler/crypto/encrypt.py')],
     technique=T,
     note='About 130 SELECTs; 0 to 4 rows with every pattern of NULLs listed; integers of 32 bits, floats in eighths. Paillier ciphertexts are free integers modulo n^2 with the homomorphic contract (property C07); user variables of MySQL per connection as in lib/minisql.py.')

prop('D01', 'The connection pool: one user per connection, the limits, nothing lost, nobody waits for ever',
     'However requests, uses, releases, garbage collection, failures and the closing of the pool interleave among threads, and for every choice of the limits: a dedicated connection has one user at a time and comes without uncommitted work or session state of others; '
     'there are never more connections than maxconnections and never more idle ones than maxcached, and idle ones are used again; a request is refused, or waits, only while the limit is reached, and a waiting one is served after a release; no connection and no place under the limit is lost. '
     'A lost connection is replaced without an error outside of transactions, never within one: acknowledged commits are durable, uncommitted work is undone, no statement is carried out twice, a transaction is not split over two connections. maxusage and setsession hold for every connection handed out.',
     ['schedules', 'fault schedules', 'histories', 'configurations'], 'all places of up to two preemptions of two or three threads, all places and kinds of a failing driver call, all histories of up to five steps, limits 0 to 2',
     'Every one of these is a race or a failure at a particular call; unit tests run one schedule.',
     ['dbutils/pooled_db.py', 'dbutils/steady_db.py'],
     [('PooledDB.connection / cache / unshare / close', 'dbutils/pooled_db.py'), ('PooledDedicatedDBConnection, SharedDBConnection', 'dbutils/pooled_db.py'), ('SteadyDBConnection._cursor / _ping_check / commit, SteadyDBCursor', 'dbutils/steady_db.py')],
     technique=T + '; the schedule and the failures are symbolic integers',
     note='Threads run the real pool with the lock replaced by a scheduler; a thread is preempted at locks, driver calls and accesses to the connection count and the idle cache, at most twice (quick: once for three threads). The driver is a stand-in with MySQL semantics (lost connections lose uncommitted work).')

prop('H01', 'The HTTP endpoints answer with what the statement returns',
     'For every statement and table contents, /query, /query_jar, /jdbc_query and /create_table answer with exactly the rows that the statement returns on the data source named in the request: values under their column names, as ciphertexts only when asked for, '
     'tables created with exactly the encryption asked for, nothing carried out twice or on another data source. /jdbc_query/schema lists the tables and columns that exist and marks the encrypted ones; /encrypt_sql answers with the statement EulerDB would send, without running it. '
     'A statement that fails is answered with an error, never with rows, an empty result or a success message, and has no effect on later requests.',
     ['inputs', 'histories', 'configurations'], 'all values in rows and constants, over a catalogue of request sequences for each endpoint',
     'Handlers each assemble data source, encryption and result on their own; tests of the repository do not call them.',
     ['handler.py', 'controller/rewriter.py', 'scheduler/backend/execution_context.py', 'scheduler/handers/decrypt_handler.py'],
     [('request handlers', 'handler.py'), ('dispatch', 'controller/rewriter.py'), ('invoke', 'scheduler/backend/execution_context.py')],
     technique=T,
     note='About 55 request sequences, two rows with NULLs, integers of 32 bits and texts of 2 letters. tornado is replaced by a stand-in (not installed for the checks\' Python). Authentication does not exist in EulerDB and is not claimed.')

prop('N01', 'Rotating the key of a column keeps its contents',
     'After KeyRotation.rotate_key for a column with any contents, clients read the same values as before, stored under the new key, and the metadata names the new key; a failure at any point leaves the column readable under the old or the new key. '
     'Decrypting an exported file (OfflineDecryption.decrypt_file: single, pool, distributed) gives the plaintext values in their order.',
     ['inputs', 'crash points'], 'all column contents, all crash points',
     'Loss shows only for particular values, NULLs and crash points.',
     ['scheduler/utils/key_rotation_support.py', 'scheduler/utils/decrypt_support.py'],
     [('KeyRotation.rotate_key', 'scheduler/utils/key_rotation_support.py'), ('OfflineDecryption', 'scheduler/utils/decrypt_support.py')],
     na='The code cannot be executed here, symbolically or otherwise: both modules import pandas and pyspark at their top, which are not installed, so there is nothing to encode against and no counterexample could be replayed. '
        'The module is also marked unfinished in its source ("todo some bug need to fix"); nothing else in the repository calls it.')

prop('H02', 'A proxy that rewrites with EulerDB, sends the statements itself and has the rows decrypted gets the right rows',
     'For every statement and table contents: the statement that /encrypt_sql1 or /encrypt_sql2 answers with, carried out on the database server, has the effect of the original one, and the rows it returns, handed to /decrypt_data with the id of the query, come back as the rows of the plaintext database under their column names '
     '(NULLs, numbers as JSON numbers or as text), whatever the number, order and timing of other queries, and when the table is dropped or made again meanwhile (or decryption is refused). The rewriting endpoints run nothing. '
     'A statement that names a table of EulerDB and cannot be rewritten is answered with an error, never handed on with its plaintext; statements of the session and on other tables are handed on unchanged.',
     ['inputs', 'histories', 'schedules'], 'all values in rows and constants, all orders of decryption, all clock steps of 0 to 2 ms, over a catalogue of statements',
     'Falling back to the original text discloses plaintext only for statements that fail in the rewriter; ids collide only within a millisecond.',
     ['handler.py', 'controller/rewriter.py', 'scheduler/backend/execution_context.py', 'scheduler/handers/decrypt_handler.py', 'scheduler/backend/executors/remote_executor.py'],
     [('ControllerEncryptSql1/2, ControllerDecrypt', 'controller/rewriter.py'), ('encrypt_sql2, decrypt_data', 'scheduler/backend/execution_context.py'), ('decrypt1', 'scheduler/handers/decrypt_handler.py'), ('ConvertExecutor', 'scheduler/backend/executors/remote_executor.py')],
     technique=T,
     note='About 115 scenarios, two rows with NULLs, integers of 32 bits, texts of 2 or 3 letters; three queries with every first decryption. Tables are created and dropped through the other endpoints.')

prop('R11', 'Requests at the same time behave as one after another, each on the database and with the rights it names',
     'Statements that several clients send at the same time to one process (also the first ones of the process, also CREATE, DROP and ALTER TABLE, sums included) have the results, and leave the contents and the metadata (also after a restart), of some order of them one after another that keeps the order of each client and of requests that did not overlap; none waits for ever. '
     'A request runs on exactly the server, port and database it names, with the user and the password it names: a wrong password is refused whatever was asked before, and tables of the same name in different databases stay apart.',
     ['inputs', 'schedules', 'histories'], 'all interruptions at driver calls, all values in rows and constants, over a catalogue of statement pairs',
     'A race needs an interruption between two particular calls; a confused pool key needs particular names.',
     ['scheduler/backend/executors/remote_executor.py', 'scheduler/schema/metadata.py', 'scheduler/backend/execution_context.py', 'dbutils/pooled_db.py'],
     [('RemoteExecutor.call, connect_db', 'scheduler/backend/executors/remote_executor.py'), ('Delta', 'scheduler/schema/metadata.py'), ('invoke', 'scheduler/backend/execution_context.py'), ('PooledDB', 'dbutils/pooled_db.py')],
     technique=T,
     note='Two clients (thorough: three), one interruption at a driver call besides waiting (thorough: two or three), one row at the start. Threads are switched at driver calls, locks and ends of transactions, not between bytecodes. MySQL is the stand-in lib/mvcc.py. Statements sent to several EulerDB processes are outside.')
