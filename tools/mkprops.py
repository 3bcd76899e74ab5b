import json
J="src/psion/jose/"; O="src/psion/oauth2/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","JWS round trip for every algorithm, key, header and payload",
 "For every supported signing algorithm, every key fit for it, every byte-string payload and every valid header, signing and then verifying with the same key (or only its public half), with or without naming the expected algorithm, returns exactly that payload and exactly that header. The token always consists of three unpadded base64url segments separated by dots, whose first two decode to the header JSON and the payload. Repeating or interleaving signings with different keys, headers and payloads never changes any of this.",
 ["inputs","histories"],"all 13 algorithms x keys of every legal size/curve x all payload bytes x all valid headers x interleaved uses",
 "The tests sign one fixed message with one key per family and never round-trip a token for RS/ES/PS through serialize/deserialize.",
 [J+"jws.py",J+"jwa/jws.py",J+"jwa/jwk.py","src/psion/webtools.py"],
 [("compact serialization",J+"jws.py:serialize/deserialize"),("algorithm sign/verify pairs",J+"jwa/jws.py")],
 ["JsonWebSignature.serialize return value","JsonWebSignature.deserialize return value"])
p("C02","No altered token and no foreign key ever verifies",
 "Take any token issued with a signing algorithm other than the unsecured one: whatever is changed in its header, payload or signature segment (replaced, inserted, removed, truncated, swapped or spliced from another token), and whatever other key it is verified with, verification fails with the library's signature/token error and returns nothing. The only change allowed to go unnoticed is one that leaves header and payload text untouched and decodes to the same signature bytes using base64url characters only, or that is another genuine signature of the same text by the same key (ECDSA's negated s). A foreign key is one that differs in value (HMAC keys differing only in trailing zero bytes are the same key), and turning a token into an unsecured one is governed by the restrictions property. This holds for any order in which genuine and altered tokens are verified.",
 ["inputs","histories"],"all tokens x all edits of their text x all other keys x all orders of verification",
 "The tests contain no negative token at all ('TODO: Add tests that fail').",
 [J+"jws.py",J+"jwa/jws.py",J+"jwa/jwk.py","src/psion/webtools.py"],
 [("signature over the received header and payload text",J+"jws.py:deserialize"),("verify raises",J+"jwa/jwk.py")],
 ["JsonWebSignature.deserialize","JsonWebToken.decode"])
p("C03","Algorithm and key restrictions bind every signing and verification",
 "A token is produced or accepted only if the key's type and elliptic curve fit the algorithm named in the header, the key's own restrictions (algorithm; intended use, which must be signing; allowed operations, which must be among sign and verify; and key ID when the header names one) permit it, and the header's algorithm equals the one the verifier asked for, if any. An unsecured token ('none') is never accepted when the verifier asked for, or the key is reserved to, a real algorithm, nor when it carries a non-empty signature, and a public asymmetric key is never usable as an HMAC secret. When every restriction is met the operation goes through.",
 ["inputs","configurations"],"all (header, key attributes, expected algorithm) combinations on both the signing and the verifying side",
 "Tests check no mismatching combination of algorithm, key type, kid, use or key_ops.",
 [J+"jws.py",J+"jwa/jws.py"],[("key validation against the header",J+"jws.py:_validate_key"),("key type and curve validation",J+"jwa/jws.py:validate_key"),("expected algorithm comparison",J+"jws.py:deserialize")],
 ["exceptions from serialize/deserialize/encode/decode"])
p("C04","Any token or header input is decoded or cleanly rejected",
 "For every byte string or text given as a token, decoding either succeeds or raises one of the library's JOSE errors; no other exception ever escapes, with or without signature validation. A header is accepted only if its algorithm is a supported name, its key ID, type and content type (when present) are non-empty strings, and its critical list (when present and not null) is a non-empty list of non-empty strings each naming a parameter that is present with a value; everything else is refused with a JOSE error.",
 ["inputs"],"all byte/text strings offered as tokens and all JSON values offered as headers",
 "Tests feed one well-formed token and about ten bad headers.",
 [J+"jws.py",J+"jwt.py","src/psion/webtools.py"],[("segment splitting and decoding",J+"jws.py:deserialize"),("header validators",J+"jws.py:JsonWebSignatureHeader")],
 ["exception type from deserialize/decode/header construction"])
p("C05","Tokens interoperate with an independent RFC 7515/7518 implementation",
 "Every token the library signs verifies under an independent implementation of RFC 7515 and RFC 7518 (HMAC, PKCS#1 v1.5, PSS with salt length equal to the hash length, and ECDSA with fixed-length R||S), using the key parameters as published in the JWK. Every token such an implementation produces is accepted by the library, and every one it would reject because the signature is wrong is rejected. HMAC and PKCS#1 v1.5 signatures, which are deterministic, are bit-for-bit the same.",
 ["inputs"],"all algorithms except none x keys of every legal size x messages, both directions",
 "Tests only ever verify the library's own signatures; one fixed HS256 token is external.",
 [J+"jwa/jwk.py",J+"jwa/jws.py",J+"jws.py"],[("signature primitives",J+"jwa/jwk.py:sign/verify"),("algorithm table",J+"jws.py:__algorithms__")],
 ["tokens on the wire","JWK dump"])
p("C06","Keys survive every dump, export, parse and reload unchanged",
 "For every symmetric, RSA and EC key (private or public), dumping it to JWK form and loading that back, or exporting it and parsing the result (plain or password-protected PEM, PKCS#8 or traditional, given as bytes or as a file path; base64 or raw bytes for symmetric keys), yields a key with identical parameters that signs and verifies interchangeably with the original. Extra attributes supplied with the key (such as ID, use, algorithm) are kept, and EC coordinates and private values are always encoded at the curve's full width. An RSA private key given by modulus and exponents alone is the same key as the fully specified one.",
 ["inputs","configurations"],"all key values including leading-zero coordinates, every size and curve, every encoding, every password",
 "Tests use one fixed key per type; failures depend on key values (leading zero bytes, a PEM without '/' in its first 255 bytes, raw secrets with NUL bytes).",
 [J+"jwa/jwk.py",J+"jwk.py","src/psion/webtools.py"],[("parse/dump/export per key type",J+"jwa/jwk.py"),("attribute handling",J+"jwk.py:dump/parse"),("integer codecs","src/psion/webtools.py:int_to_b64/b64_to_int")],
 ["JWK dictionaries","PEM bytes","cross-verification of signatures"])
p("C07","Public views of asymmetric keys never disclose private material",
 "For every RSA or EC private key, the public dump (also the default dump), the public dump of any key set containing it, the public PEM export and a parse that asks for the public key contain no private parameter and no derived private value, while still verifying everything the private key signs. A key built from any of these views cannot sign and cannot be dumped or exported as private. Extra attributes attached to the key are still present in the public dump.",
 ["inputs","configurations"],"all RSA/EC private keys x all public views x all extra attributes",
 "Tests dump one public key; they never take the public view of a private key.",
 [J+"jwa/jwk.py",J+"jwk.py"],[("attribute filtering on dump",J+"jwk.py:dump"),("public branch of dump/export",J+"jwa/jwk.py")],
 ["JsonWebKey.dump/export/parse","JsonWebKeySet.dump"])
p("C08","Wrong-kind, malformed or inconsistent key material is refused",
 "Parsing key material as the wrong kind (an RSA key as EC, an EC key as RSA, an asymmetric key in any PEM form, an X.509 certificate or an ssh-rsa line as a symmetric secret), an unknown format, an unsupported curve or an unsupported key type is always refused with the library's key error. A JWK whose point is not on its curve, whose private value does not belong to its public part, or which lacks a required parameter never yields a key. Generation refuses symmetric secrets under 32 bytes, RSA moduli under 512 bits and unknown curves.",
 ["inputs"],"all key material in every encoding crossed with every requested kind, and all corruptions of JWK parameters",
 "Tests try one RSA PEM as EC/oct and one EC PEM as RSA.",
 [J+"jwa/jwk.py",J+"jwk.py"],[("type checks after PEM load",J+"jwa/jwk.py:parse"),("asymmetric marker blacklist",J+"jwa/jwk.py:OCTKey.parse"),("key type table",J+"jwk.py:__algorithms__")],
 ["exceptions from JsonWebKey(), parse, generate"])
p("C09","Key sets keep IDs unique and return exactly the requested key",
 "A key set can be built exactly when it is a non-empty list of keys that all have an ID and no two share one. Looking up an ID returns the one key with that ID, whatever the position, or nothing if there is none. Dumping a key set lists all keys in order, and loading that dump back (private or public) gives a key set with the same IDs, order and key material.",
 ["inputs","configurations"],"all lists of keys and IDs, all lookups, all dump/load round trips",
 "Tests build two key sets of two keys and never load one.",
 [J+"jwk.py"],[("ID checks on construction",J+"jwk.py:JsonWebKeySet.__init__"),("lookup",J+"jwk.py:get_key"),("load",J+"jwk.py:load")],
 ["JsonWebKeySet(), get_key, dump, load"])
p("C10","JWT time claims are enforced at every instant in every time zone",
 "At any current time and in any process time zone, claims with an expiration at or before the current second are refused as expired, claims with a not-before time in the future are refused as not yet valid, and claims issued in the future are refused; claims violating none of these are not refused for their times. A time claim that is present and is not an integer is refused. The same outcome holds for building claims directly, for issuing and for decoding a token, including with signature validation off.",
 ["inputs","configurations"],"all integer and non-integer exp/nbf/iat values, all clock readings including exact boundaries, all time zones and DST states",
 "Tests use now +/- 1 hour in UTC only; boundaries, zero, and other time zones are never exercised.",
 [J+"jwt.py"],[("default claim validation",J+"jwt.py:_validate_default_claims")],
 ["JsonWebTokenClaims(), JsonWebToken(), JsonWebToken.decode"])
p("C11","Claim types and every caller-stated claim requirement are enforced",
 "Audience claims that are neither a string nor a list of strings, and issuer, subject or token-ID claims that are not strings, are refused; claims must be a non-empty object. When a caller states requirements (essential, exact value, list of acceptable values), claims are accepted if and only if every stated requirement of every named claim is met, in whatever order the requirements are listed; a list-valued claim meets a list of acceptable values when any of its items is acceptable. On decode with validation the same requirements apply; ID-token claims additionally require an integer authentication time if present, or if a maximum age is, and the expected nonce if one is stated; acceptable values not given as a list are never met.",
 ["inputs","configurations"],"all claim sets x all requirement sets (any number of claims, any order)",
 "Tests never pass options and never decode with options.",
 [J+"jwt.py","src/psion/oidc/claims.py"],[("option loop",J+"jwt.py:_validate_claims"),("type checks",J+"jwt.py:_validate_default_claims"),("ID token checks","src/psion/oidc/claims.py")],
 ["JsonWebTokenClaims(), IDToken(), JsonWebToken.decode(options=...)"])
p("C12","JWT encode/decode preserves every claim and verifies before trusting",
 "For every JSON claim set that is valid at the current time and every fit key and algorithm, encoding and decoding returns equal claims (top-level nulls dropped) and equal header, as text or bytes, and claims with any JSON nesting and any Unicode text survive. A decoded token with validation on always has a signature by the given key; altering any claim of an issued token without the key never decodes. Turning signature validation off changes neither the returned claims nor the header.",
 ["inputs"],"all JSON claim objects, headers, algorithms and keys",
 "There is no test that encodes or decodes a JWT.",
 [J+"jwt.py",J+"jws.py","src/psion/webtools.py"],[("encode/decode",J+"jwt.py:JsonWebToken"),("JSON codecs","src/psion/webtools.py:json_dumps/json_loads")],
 ["JsonWebToken.encode/decode"])
p("C13","Encoding helpers are exact inverses and parse credentials exactly",
 "Base64url encoding round-trips every byte string without padding characters, and the integer codec round-trips every natural number in minimal form (zero included) while refusing negative and non-integer input; text, bytes and JSON conversions are exact. Encoding parameters onto a URL keeps the URL's own path and query, omits absent (null) parameters and decodes back to exactly the given parameters for all Unicode text. Basic and Bearer credentials are extracted exactly (scheme in any letter case, colons allowed in the secret) and any other header value yields no credentials, never an error; the token half-hash is the unpadded base64url of the left half of the hash selected by the algorithm.",
 ["inputs"],"all byte strings, naturals, parameter maps, URLs and header values",
 "There are no tests of the helper module.",
 ["src/psion/webtools.py"],[("codecs","src/psion/webtools.py")],["return values of the helper functions"])
p("C14","Clients are authenticated only by their registered method and secret",
 "At the token and revocation endpoints a request is attributed to a client if and only if it presents that client's ID together with its exact current secret by the client's registered method (HTTP Basic, form body), or, for a public client registered for no authentication, just its ID in the form body and no secret. Credentials in the URL query are never accepted, a request using both the Basic header and a body secret is refused, and the client-credentials grant never accepts an unauthenticated client. Failures answer with an invalid-client error (with a Basic challenge exactly when well-formed Basic credentials were presented) and cause no effect.",
 ["inputs","histories","configurations"],"all clients, secrets, methods, placements of credentials, and client updates between requests",
 "There are no tests of the OAuth package.",
 [O+"authentication/client_authentication.py",O+"authentication/methods/*.py","src/psion/webtools.py"],
 [("method dispatch",O+"authentication/client_authentication.py"),("per-method checks",O+"authentication/methods/")],
 ["token and revocation endpoint responses","adapter calls"])
p("C15","The user agent is only ever redirected to a registered URI",
 "For every authorization (or consent) request, the redirect target is either the redirect URI given in the request, and then it is exactly one of the URIs currently registered for the existing client named in the request, or the provider's own error page. Whenever client or redirect URI is missing, unknown or not registered, or a mandatory parameter is missing, the answer goes to the error page, whatever else is wrong with the request and whether or not a user is logged in. The target's own path and query are retained unchanged and parameters are added as proper query parameters, in no case altering the host.",
 ["inputs","histories","configurations"],"all authorization requests x registered clients x users present or absent",
 "There are no tests of the OAuth package.",
 [O+"endpoints/authorization.py",O+"models/http.py","src/psion/webtools.py"],
 [("client and redirect URI validation",O+"endpoints/authorization.py:_validate_client"),("fatal errors",O+"endpoints/authorization.py:__call__"),("Location building","src/psion/webtools.py:urlencode")],
 ["Location header of the authorization response"])
p("C16","Authorization codes are issued exactly when the request is entitled",
 "The authorization endpoint issues a code if and only if a user is logged in, client and redirect URI are valid, the response type is supported and allowed for the client, a PKCE challenge of 43 to 128 characters with a known method is present, and all requested scopes are supported and allowed for the client; otherwise it redirects with the matching error and stores nothing. An issued code is stored exactly once, bound to exactly that client, user, redirect URI, scope list, challenge, challenge method and nonce. Every redirect to the client, success or error, echoes the request's state byte for byte, and carries no state if none was given.",
 ["inputs","histories","configurations"],"all authorization requests, clients, users, scopes, PKCE parameters and states",
 "There are no tests of the OAuth package.",
 [O+"endpoints/authorization.py",O+"grants/authorization_code.py",O+"grants/base.py"],
 [("request validation",O+"grants/authorization_code.py:_validate_authorization_request"),("scope validation",O+"grants/base.py:_validate_requested_scopes"),("code persistence",O+"grants/authorization_code.py:authorize")],
 ["Location header","adapter save calls"])
p("C17","A code yields tokens only to its client, URI, verifier and lifetime",
 "A token request with an authorization code succeeds if and only if the client authenticates and may use the grant, the code exists and was issued to that client, the redirect URI equals the one it was issued for and is still registered, the verifier matches the stored challenge under the stored method (plain or S256), the current time, in any time zone, is before its expiration, and its user still exists. On success exactly one access token is created, for that client, that user and exactly the authorized scopes, plus one refresh token exactly when the client may use refresh tokens. Otherwise no token is created and an error is returned.",
 ["inputs","histories","configurations"],"all codes, clients, verifiers, URIs, clock readings and time zones",
 "There are no tests of the OAuth package.",
 [O+"grants/authorization_code.py",O+"endpoints/token.py"],[("code validation",O+"grants/authorization_code.py:_validate_authorization_code"),("PKCE transforms",O+"grants/authorization_code.py:S256_challenge/plain_challenge")],
 ["token response","adapter create calls"])
p("C18","An authorization code is redeemable at most once under any schedule",
 "Over any history and any interleaving of concurrent requests in one provider, at most one request ever obtains tokens with a given code. Once a client that authenticated and may use the grant has presented a code, whether this succeeded, failed, was cancelled or hit a storage error (other than in deleting the code), that code can never be redeemed again. Requests that fail client authentication, and requests presenting other codes, neither consume it nor are affected by it.",
 ["histories","schedules","fault_sequences"],"all interleavings of concurrent token requests at storage calls, all failure points, all later replays",
 "There are no tests of the OAuth package, let alone concurrent ones.",
 [O+"grants/authorization_code.py"],[("deletion in finally",O+"grants/authorization_code.py:token"),("in-use guard",O+"grants/authorization_code.py:token")],
 ["token responses of all concurrent requests","adapter storage"])
p("C19","No token ever carries more scope than requested, granted and allowed",
 "Every token created, over any history of authorization, code, refresh and client-credentials requests, has only scopes the provider supports and the client was allowed when they were granted, and never more than was requested or originally authorized; requests for an unsupported, unallowed or broader scope are refused with an invalid-scope error and create nothing. Omitting the scope means all scopes of the original grant (refresh) or of the client (client credentials), restricted to what the client is currently allowed. The response states the scope whenever it differs from the one requested, and what it states is exactly what the token has.",
 ["inputs","histories","configurations"],"all scope strings, client and provider scope sets, and chains of refreshes with client changes in between",
 "There are no tests of the OAuth package.",
 [O+"grants/base.py",O+"grants/refresh_token.py",O+"grants/client_credentials.py",O+"grants/authorization_code.py"],
 [("scope validation",O+"grants/base.py:_validate_requested_scopes"),("narrowing on refresh",O+"grants/refresh_token.py:_validate_requested_scopes")],
 ["adapter create calls","scope in token responses"])
p("C20","Refresh tokens work only for their client, user and lifetime",
 "A refresh request succeeds if and only if the client authenticates and may use refresh tokens, the refresh token exists and was issued to that same client, the current time, in any time zone, is before its expiration, its user still exists, and the requested scope is acceptable. On success the new access token and new refresh token are created for that client, the user of the presented refresh token and the same scopes. Otherwise nothing is created and an error is returned.",
 ["inputs","histories","configurations"],"all refresh tokens, clients, users, clock readings; chains of refreshes, revocations and deletions",
 "There are no tests of the OAuth package.",
 [O+"grants/refresh_token.py",O+"endpoints/token.py"],[("refresh token validation",O+"grants/refresh_token.py:_validate_refresh_token")],
 ["token response","adapter create calls"])
p("C21","Tokens are issued only through grants the client and provider allow",
 "A token request succeeds only with a grant type that the provider has enabled and the authenticated client is registered for; unknown or disabled grant types give an unsupported-grant error and unregistered ones an unauthorized-client error, with no effect. The client-credentials grant serves only clients authenticating with a secret, issues the token to the client itself and never issues a refresh token. A client not registered for refresh tokens never receives one from any grant.",
 ["inputs","histories","configurations"],"all sets of enabled grants x client registrations x token requests",
 "There are no tests of the OAuth package.",
 [O+"endpoints/token.py",O+"grants/client_credentials.py",O+"grants/authorization_code.py"],[("grant selection",O+"endpoints/token.py:_validate_grant_type"),("client grant check",O+"endpoints/token.py:__call__")],
 ["token response","adapter create calls"])
p("C22","Every endpoint answers every request with a well-formed response",
 "For any GET or POST request with any URL query, headers and body (missing, repeated, blank, non-ASCII, undecodable or oversized parameters included), the authorization, token and revocation endpoints return a response and never raise. Token responses, success or error, are JSON with no-store and no-cache headers, status 200 with access token, Bearer type and the configured lifetime, or status 400/401 with a standard error code; authorization responses are redirects; revocation responses are JSON. No response shares headers or content with any earlier response.",
 ["inputs","histories"],"all HTTP requests, in any sequence, against any client population",
 "There are no tests of the OAuth package.",
 [O+"endpoints/*.py",O+"models/http.py",O+"exceptions.py","src/psion/webtools.py"],[("error handling in endpoints",O+"endpoints/"),("request parsing",O+"models/http.py:Request"),("token response format",O+"grants/base.py:_create_token")],
 ["Response status, headers, body"])
p("C23","Revocation acts only for the authenticated client, exactly once",
 "A revocation request takes effect if and only if the client authenticates, a token is given in the form body and the type hint, if given, is supported; then the storage is asked exactly once to revoke exactly that token, for that client, with that hint. An unsupported hint gives an unsupported-token-type error, failed authentication an invalid-client error, a missing token no effect; revoking unknown or foreign tokens still answers success. After a client revokes its refresh token it can never be used again, and no other token is affected.",
 ["inputs","histories"],"all revocation requests interleaved with refreshes by several clients",
 "There are no tests of the OAuth package.",
 [O+"endpoints/revocation.py"],[("authentication before revocation",O+"endpoints/revocation.py:__call__")],
 ["revocation response","adapter revoke calls","later refresh attempts"])
p("C24","ID tokens are issued exactly for openid and are correct",
 "With OpenID Connect enabled, a code exchange returns an ID token if and only if the scope value 'openid' was granted (not merely a scope containing that text). The ID token verifies under the provider's key, and its issuer, audience (the client ID), subject and user claims, issue time, expiration (issue time plus configured lifetime, true epoch seconds in any time zone) and access-token hash are correct. The nonce of the authorization request, if any, appears unchanged; without one there is no nonce.",
 ["inputs","histories","configurations"],"all scope sets, clients, users, nonces, signing algorithms, lifetimes, clock readings and time zones",
 "There are no tests of the OIDC package.",
 ["src/psion/oidc/flows/authorization_code.py","src/psion/oidc/claims.py","src/psion/webtools.py"],[("token_response hook","src/psion/oidc/flows/authorization_code.py"),("at_hash","src/psion/webtools.py:create_half_hash")],
 ["id_token in the token response"])
p("C25","Providers and requests in one process never influence each other",
 "Several providers in one process, each with its own storage, configuration, keys and extensions, behave exactly as if each were alone: requests to one never touch another's storage, and extensions added to one never run for another. Within a provider, the outcome of a request depends only on the request, the clock and the stored data at that moment (client changes, secret rotations and deletions take effect at once), not on earlier requests.",
 ["histories","configurations"],"all interleavings of requests to several providers, with changes to stored data in between",
 "There are no tests of the OAuth package; two providers in one process are never built.",
 [O+"grants/base.py",O+"providers/base.py",O+"authentication/client_authentication.py"],[("hook registry",O+"grants/base.py:__hooks__"),("per-provider wiring",O+"providers/base.py")],
 ["responses and adapter calls of each provider"])
p("C26","The Starlette integration is transparent",
 "Through the Starlette integration every HTTP request reaches the endpoints with its method, URL, headers, raw body and user unchanged, and every response leaves with exactly the status, headers and body the endpoint produced. Any sequence of OAuth requests therefore has the same outcomes over ASGI as when calling the endpoints directly.",
 ["inputs","histories"],"all ASGI requests (chunked bodies, any header bytes, any query) and all endpoint responses",
 "There are no tests of the integration.",
 [O+"providers/starlette.py",O+"models/http.py"],[("request/response conversion",O+"providers/starlette.py")],
 ["ASGI messages sent","Request objects received by endpoints"])
p("C27","Consent data names the right client and only its allowed scopes",
 "For a consent query, data is returned if and only if the client exists, the redirect URI and response type are registered for it and a scope is given; it consists of exactly that client and exactly those requested scopes the client is allowed. Every other query gets a redirect: to the error page if client or redirect URI is not valid, otherwise to the client's redirect URI with the matching error and the unchanged state. Asking for consent data stores nothing and does not change what the following authorization request does.",
 ["inputs","histories"],"all consent queries and subsequent authorization requests with the same request object",
 "There are no tests of the OAuth package.",
 [O+"endpoints/authorization.py"],[("consent data",O+"endpoints/authorization.py:get_consent_data")],
 ["return value of the consent query","adapter calls"])
p("C28","Generated secrets and authorization codes are fresh and unpredictable",
 "Every generated secret token has exactly the requested length, uses only URL-safe characters with every character possible at every position, and is never repeated or reproduced by reseeding or restoring the general-purpose random generator, in the same or another process. Authorization codes are such tokens of at least 43 characters, freshly drawn for every authorization, whatever the request. Generated symmetric keys are equally fresh.",
 ["inputs","histories"],"all lengths, all sequences of generations, all states of the ambient random generator",
 "There are no tests of token generation.",
 ["src/psion/webtools.py",O+"grants/authorization_code.py",J+"jwa/jwk.py"],[("CSPRNG token","src/psion/webtools.py:secret_token"),("code creation",O+"grants/authorization_code.py:authorize")],
 ["secret_token return values","codes in Location headers"])
p("C29","Generated keys have the requested strength and attributes and work",
 "Generating a key yields exactly what was asked: a secret of the requested number of bytes (at least 32, 32 by default), an RSA modulus of exactly the requested bits (2048 by default) with a full consistent private part, or an EC private key on exactly the requested curve; the given attributes are all present. Every generated key is different, is private, signs and verifies under every algorithm of its type it is large enough for, and survives a dump and reload.",
 ["inputs","configurations"],"all key types, sizes, curves and attribute sets",
 "Tests generate one key per type and look only at its type name.",
 [J+"jwk.py",J+"jwa/jwk.py"],[("generation",J+"jwa/jwk.py:generate"),("attributes",J+"jwk.py:generate")],
 ["JsonWebKey.generate"])
p("C30","Storage failures never turn into grants",
 "Whatever storage call of a request fails, before or after taking effect and with whatever exception or cancellation, the request obtains no code, token, consent data or successful revocation, and after the failure no further token, code or revocation is made for it (deleting the presented code is all that may still happen). A failure that is an OAuth 2.1 error is answered as that error in the endpoint's usual form, with the state of an authorization request; when the client could not be looked up, the user agent is never sent to the requested redirect URI. A cancelled request stays cancelled. Afterwards the provider treats every request exactly as a freshly built provider over the same stored data would.",
 ["fault_sequences","histories"],"all requests x all storage calls they make x failing before or after x kind of failure, then any further requests",
 "There are no tests of the OAuth package and no fault is ever injected.",
 [O+"endpoints/*.py",O+"grants/*.py",O+"authentication/client_authentication.py","src/psion/oidc/flows/authorization_code.py"],
 [("error handling in endpoints",O+"endpoints/"),("deletion in finally",O+"grants/authorization_code.py:token")],
 ["responses and exceptions of the endpoints","adapter calls"])
p("C31","Equivalent spellings of a request have the same outcome",
 "What a request means does not depend on how it is spelled: the order of its parameters, percent-encoding or not of any character, + or %20 for a space, empty segments between ampersands, additional unknown parameters, parameters present but blank, the letter case of header names, of the Basic scheme and of the method, the media type's case or charset, unrelated headers, and the path and host of the URL. Authorization and consent requests may carry each parameter in the query or in the form body. Two such spellings of one request, against the same stored data at the same time, get the same status, headers, parameters and effects.",
 ["inputs","histories"],"all requests of generated histories x all combinations of spellings",
 "There are no tests of the OAuth package or of request parsing.",
 [O+"models/http.py",O+"endpoints/*.py",O+"authentication/methods/*.py","src/psion/webtools.py"],[("request parsing",O+"models/http.py:Request"),("URL decoding","src/psion/webtools.py:urldecode")],
 ["responses and adapter calls for both spellings"])
p("C32","JOSE operations leave callers' objects alone and depend on no history",
 "Signing, verifying, encoding, decoding, dumping, exporting and looking up keys never change the key objects, key descriptions, key lists, headers, claims, options or payloads given to them. Changing a dictionary the library handed out (a dump, decoded claims or header) at its own level, or one that was used to build a key, header or token at any depth, has no influence on keys or later operations. Any operation on the same key objects has the same outcome whatever successful or failing operations came before it: every signature is by that key over exactly that header and payload, and a token is accepted exactly when the reference implementation accepts it under that key and the stated requirements at that time.",
 ["histories","inputs"],"all sequences of operations over shared keys, key sets, headers, claims and options, with genuine, tampered and foreign tokens",
 "Tests use every object once.",
 [J+"jws.py",J+"jwt.py",J+"jwk.py",J+"jwa/jwk.py",J+"jwa/jws.py"],[("copies on construction",J+"jwk.py:JsonWebKey.__init__"),("dump",J+"jwk.py:dump"),("claims and header copies",J+"jwt.py:JsonWebToken")],
 ["the callers' objects after each operation","results of later operations"])
p("C33","Extensions run exactly for their grant and their contributions are used",
 "An extension added to the authorization code grant is called exactly once at each of its checkpoints for every granted authorization or code exchange, with the request's parameters (request checkpoints) or the code or token, validated data, client and user (response checkpoints), and its response checkpoints are not called for refused requests. What it returns is used and nothing else changes: data from authorization_request reaches the storage and the later checkpoint (replaced scopes are still checked), authorization_response adds to the redirect, token_request adds to the data of token_response (a redirect URI or verifier it replaces is the one that is checked), and token_response adds to the token. Returning nothing changes nothing, any subset of checkpoints may be present, several extensions work together, and extensions of other grants or providers are never called. An OAuth 2.1 error raised by an extension refuses the request with that error (and the state), any other exception grants nothing, and a request checkpoint that raises prevents every effect except consuming the code.",
 ["histories","configurations","inputs"],"all sets of extensions, checkpoints, contributions and failures x all requests",
 "There are no tests of the OAuth package or its hooks.",
 [O+"grants/base.py",O+"grants/authorization_code.py",O+"providers/base.py"],[("hook execution",O+"grants/base.py:_execute_hook"),("registration",O+"providers/base.py:add_hook")],
 ["calls of the extensions","responses","data given to the storage"])
p("C34","Grants and authentication methods of the application work like built-in ones",
 "A provider may be given grants and client authentication methods of the application's own besides the built-in ones. A token request with an own grant's type is handed to that grant exactly once, with all other parameters and the authenticated client, if and only if the client authenticates by a method the grant permits (any, if it names none) and is registered for the type; what it returns is the JSON answer, not cacheable, and an OAuth 2.1 error it raises is answered as such. An authorization request with its response type is handed to it exactly once, with client and user, if and only if client, redirect URI, user and registration are in order, and the user agent is sent exactly where it says; its errors go to the client with the state, fatal ones to the error page. An own authentication method identifies the client wherever the endpoint or grant permits it, refuses when it raises, and leaves the decision to the other methods when it returns nothing. Requests for other grants behave as if the own grants were not there, and extensions added to an own grant run at the checkpoints it declares, for that grant only.",
 ["configurations","inputs","histories"],"all sets of own grants, permitted methods, registrations, answers and failures x all requests",
 "There are no tests of the OAuth package.",
 [O+"grants/base.py",O+"endpoints/token.py",O+"endpoints/authorization.py",O+"authentication/client_authentication.py",O+"providers/base.py"],[("dispatch by grant type",O+"endpoints/token.py:_validate_grant_type"),("dispatch by response type",O+"endpoints/authorization.py:_validate_response_type"),("permitted authentication methods",O+"authentication/client_authentication.py")],
 ["calls of the own grants and methods","responses","adapter calls"])
p("C35","Errors raised by the application reach the client complete and unmixed",
 "The storage, extensions, grants and authentication methods of the application may refuse a request by raising an OAuth 2.1 error, of a built-in class, a subclass or a class of their own with its own error code. The answer then reports exactly that error: its code, its description and error URI when given (any Unicode text) and nothing else, together with all response headers the error names. Token answers are JSON with status 400 or 401 and not cacheable, revocation answers JSON with status 401 for invalid-client errors and 400 for others; authorization errors are sent to the client's redirect URI with the request's state, but to the error page when the error is fatal or the client was not looked up yet. No answer contains anything of an error raised for an earlier request, and requests without such an error behave as on a fresh provider.",
 ["inputs","fault_sequences","histories"],"all error classes, codes, texts and headers x all places they can be raised x all requests",
 "There are no tests of the OAuth package.",
 [O+"exceptions.py",O+"endpoints/token.py",O+"endpoints/authorization.py",O+"endpoints/revocation.py"],[("error fields",O+"exceptions.py:OAuth2Error"),("token errors",O+"endpoints/token.py:__call__"),("redirected errors",O+"endpoints/authorization.py:__call__"),("revocation errors",O+"endpoints/revocation.py:__call__")],
 ["responses: status, headers, body, redirect parameters"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
