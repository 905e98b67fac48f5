"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/psion/"+f for f in files],mechanism=[dict(name=n,where="src/psion/"+w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))
I="inputs"; H="histories"; F="fault_sequences"; CF="configurations"

p("C01","A validated JWS/JWT returns only content its key really signed",
"Whenever deserializing a JWS, or decoding a JWT, with validation on returns instead of raising, the signature part verified under the given key, the hash and the padding of the token's own algorithm over exactly the token's own encoded header and payload, and the returned header and payload or claims are the decoding of exactly those two parts. Any token without exactly three dot-separated parts is rejected. The only tokens accepted without a cryptographic check are those whose algorithm is \"none\", and then the signature part is empty.",
[I],"every token (bytes), key, expected algorithm and claim options","The tests decode a few well-formed tokens with one key per family; acceptance must imply verification for every token and every one of the 13 algorithms.",
["jose/jws.py","jose/jwt.py","jose/jwa/jws.py","jose/jwa/jwk.py"],[("JsonWebSignature.deserialize","jose/jws.py"),("JsonWebToken.decode","jose/jwt.py"),("verify of each JWS algorithm","jose/jwa/jws.py"),("verify of OCTKey, RSAKey, ECKey","jose/jwa/jwk.py")],["JsonWebSignature.deserialize","JsonWebToken.decode"])
p("C02","Algorithm pinning: no algorithm, key family or curve confusion",
"When the caller states the expected algorithm, a token with any other algorithm is rejected, \"none\" included. Signing or verifying with an HMAC algorithm succeeds only with a symmetric key, with RS*/PS* only with an RSA key and with ES256/ES384/ES512 only with an EC key on P-256/P-384/P-521 respectively, and each algorithm always uses the hash and padding its name stands for.",
[I],"every token header, key and expected algorithm; all 13 algorithms","Tests pair each algorithm with its own key; they never try the cross product of algorithms, key families and curves.",
["jose/jws.py","jose/jwa/jws.py"],[("expected-algorithm comparison","jose/jws.py"),("JWSAlgorithm.validate_key, _EC.validate_key","jose/jwa/jws.py"),("__algorithms__ table","jose/jws.py")],["JsonWebSignature.serialize","JsonWebSignature.deserialize"])
p("C03","A key is never used against its declared restrictions",
"A token is never signed, nor accepted with validation, using a key whose \"use\" is something other than \"sig\", whose \"alg\" differs from the token's algorithm, whose \"key_ops\" lists any operation other than \"sign\" and \"verify\", or whose \"kid\" differs from the \"kid\" in the token's header. Something that is not a key object is never accepted as a key.",
[I],"every key (any combination of use, alg, key_ops, kid) and every header","Tests cover one violation of each kind at most, not their combinations or the order of the checks.",
["jose/jws.py"],[("_validate_key","jose/jws.py")],["JsonWebSignature.serialize","JsonWebSignature.deserialize"])
p("C04","Signing then verifying with the same key gives back the same content",
"For every supported algorithm, every key that may be used with it and every payload (or claims object with at least one non-null claim), serializing a JWS (or encoding a JWT) and then deserializing (decoding) the result with that key, or with its public half for an asymmetric key, succeeds and returns the same header and the same payload or claims. The serialization is base64url(header JSON), base64url(payload), base64url(signature) joined by dots, and the signature is computed over the first two parts joined by a dot.",
[I],"every payload, header, claims object, algorithm and admissible key","Tests round-trip a handful of fixed payloads.",
["jose/jws.py","jose/jwt.py","jose/jwa/jws.py","webtools.py"],[("JsonWebSignature.serialize / deserialize","jose/jws.py"),("JsonWebToken.encode / decode","jose/jwt.py"),("base64url codec","webtools.py")],["JsonWebSignature.serialize","JsonWebToken.encode"])
p("C05","A JWT is accepted only inside its validity window",
"A claims object is never accepted when its \"exp\" is at or before the current POSIX time, when its \"nbf\" is after it, or when its \"iat\" is after it, whatever the values (zero and negative ones included) and whatever the time zone of the host. A claims object inside its window is never rejected because of these three claims.",
[I,CF],"every integer exp/nbf/iat, every instant of the clock, every host time zone","Tests use offsets of thousands of seconds around one instant in UTC; boundaries, zero values and other time zones are never sampled.",
["jose/jwt.py"],[("JsonWebTokenClaims default validation","jose/jwt.py")],["JsonWebTokenClaims()","JsonWebToken.decode"],[("clock","current POSIX time","datetime")])
p("C06","Every claim option the caller states is enforced",
"When claims are built or a token is decoded with validation options, acceptance implies that for every listed claim: an essential claim is present, a claim with an expected value equals it, and a claim with a list of expected values equals one of them or, when the claim is a list, shares an element with it. The outcome never depends on the order of the options or on other options, and claims satisfying all the options are not rejected because of them.",
[I],"every claims object and every options dictionary (any number of options, any order)","Tests use one option at a time; a dictionary of options is unbounded.",
["jose/jwt.py"],[("option validation loop","jose/jwt.py")],["JsonWebTokenClaims(claims, options)","JsonWebToken.decode(options=...)"])
p("C07","Registered JWT claims have the type the RFC gives them",
"A claims object is accepted only if it is a non-empty dictionary in which \"exp\", \"iat\" and \"nbf\", when present and not null, are integers (booleans are not), \"iss\", \"sub\" and \"jti\" are strings and \"aud\" is a string or a list of strings. The accepted object holds exactly the given claims, except that null-valued ones are dropped.",
[I],"every JSON value of every registered claim, alone or combined, and any unregistered claims","Tests try a few wrong types for each claim.",
["jose/jwt.py","webtools.py"],[("JsonWebTokenClaims default validation","jose/jwt.py"),("FullDict","webtools.py")],["JsonWebTokenClaims()"])
p("C08","JWS headers are accepted only when well formed",
"A JWS header is accepted only if it is a non-empty dictionary whose \"alg\" is a supported algorithm name, whose \"kid\", \"typ\" and \"cty\", when present, are non-empty strings, and whose \"crit\", when present, is a non-empty list of non-empty strings each naming a header parameter that is present with a non-empty value. The accepted header holds exactly the given parameters except null-valued ones, and its signing algorithm is the one named by \"alg\".",
[I],"every header dictionary","Tests try single malformed parameters; crit is a list of any length.",
["jose/jws.py"],[("JsonWebSignatureHeader and its validate_* methods","jose/jws.py")],["JsonWebSignatureHeader()"])
p("C09","Public dumps and exports never disclose private key material",
"The public dump (the default) of an RSA or EC key, on its own or in a key set, contains none of the private parameters d, p, q, dp, dq, qi whatever the key was built from and whatever other attributes it carries, and its public export is a public-key document. A private dump or export of a public key is refused.",
[I],"every RSA/EC key, private or public, with any extra attributes; every key set","Tests compare the dump of a couple of fixed keys without extra attributes.",
["jose/jwk.py","jose/jwa/jwk.py"],[("JsonWebKey.dump/export, JsonWebKeySet.dump","jose/jwk.py"),("ECKey/RSAKey dump/export","jose/jwa/jwk.py")],["JsonWebKey.dump","JsonWebKey.export","JsonWebKeySet.dump"])
p("C10","Key representations round-trip",
"Dumping a key (privately, when it has private parts) and building a key from the result gives a key with the same parameters, and exporting a key and parsing the exported bytes gives the same key material. Attributes that are not key parameters (kid, use, alg, key_ops, ...) survive a dump unchanged, and every dump states the key's own kty.",
[I],"every key of the three families, with any extra attributes","Tests round-trip one fixed key of each family.",
["jose/jwk.py","jose/jwa/jwk.py","webtools.py"],[("dump / constructor / export / parse of ECKey, OCTKey, RSAKey","jose/jwa/jwk.py"),("JsonWebKey.dump","jose/jwk.py")],["JsonWebKey.dump","JsonWebKey.export","JsonWebKey.parse"])
p("C11","A key set holds keys with present, unique IDs and finds them",
"A key set is created only from a non-empty list of key objects that all have an ID, no two the same. Looking up an ID returns the key with that ID, or nothing when no key has it; dumping a set lists each key's dump in order, and loading accepts exactly an object whose only member is \"keys\" and gives the keys described in order.",
[I],"every list of keys (any length, duplicate IDs at any positions) and every looked-up ID","Tests build one or two small sets.",
["jose/jwk.py"],[("JsonWebKeySet","jose/jwk.py")],["JsonWebKeySet()","get_key","load","dump"])
p("C12","Weak or mismatched key material is refused, valid material is taken",
"Generating a symmetric key of fewer than 32 bytes, an RSA key of fewer than 512 bits or an EC key on a curve other than P-256, P-384, P-521 is refused, as is building a key of an unknown type or curve, parsing with an unknown format, parsing the PEM of one family as another, or parsing PEM/SSH asymmetric material as a symmetric secret. A generated symmetric key has exactly the requested number of random bytes, and every raw secret that names no existing file is taken literally.",
[I],"every generation option, key dictionary and raw key bytes","Tests try one refused case each; raw secrets may be any bytes.",
["jose/jwk.py","jose/jwa/jwk.py"],[("generate/parse of each family","jose/jwa/jwk.py"),("JsonWebKey.__init__/generate/parse","jose/jwk.py")],["JsonWebKey.generate","JsonWebKey.parse","JsonWebKey()"])
p("C13","base64url and integer codecs are exact inverses",
"Decoding the base64url encoding of any byte string gives it back, the encoding uses only the URL-safe alphabet without padding, and decoding the base64url form of any non-negative integer gives it back; negative and non-integer values are refused. Text/bytes conversion is inverse on UTF-8 text, passes None through, and never fails to turn bytes into text.",
[I],"every byte string, every natural number of any size, every text","Tests sample short strings and small integers; padding depends on length mod 4 and leading zero octets.",
["webtools.py"],[("base64url_encode/decode, int_to_b64, b64_to_int, to_bytes, to_string","webtools.py")],["psion.webtools"])
p("C14","Client authentication accepts only the right secret and method",
"A request is authenticated as a client only if that client exists and either the Basic header or the form body carries its ID together with exactly its secret and the client is registered for that very method, or the body carries its ID, no secret is sent and the client has no secret and is registered for the method \"none\". Only methods the caller allows are considered, credentials in the URL never count, and in every other case invalid_client is raised.",
[I],"every request (headers, query, body), client record and allowed-methods list","No test touches client authentication.",
["oauth2/authentication/client_authentication.py","oauth2/authentication/methods/client_secret_basic.py","oauth2/authentication/methods/client_secret_post.py","oauth2/authentication/methods/none.py"],[("ClientAuthentication.__call__","oauth2/authentication/client_authentication.py"),("authenticate of the three methods","oauth2/authentication/methods/")],["ClientAuthentication()"])
p("C15","Authorization header parsing is total and exact",
"For every headers dictionary, extracting Basic credentials returns the text before and after the first colon of the decoded credentials when the header is a well-formed Basic header and a pair of nothings otherwise, and extracting a Bearer token returns the text after the scheme or nothing. The scheme is matched without regard to case and neither function ever raises.",
[I],"every header value (any text, malformed base64, non-ASCII, missing parts)","No test calls them; malformed headers are attacker-chosen.",
["webtools.py"],[("get_basic_authorization, get_bearer_authorization","webtools.py")],["get_basic_authorization","get_bearer_authorization"])
p("C16","Tokens are issued only to authenticated, entitled clients",
"The token endpoint runs a grant, and hence issues a token, only when the request's grant_type names a configured grant, the request authenticates a client with a method that grant allows, and that client is registered for that grant type; the grant is run for that client. Otherwise the answer is an OAuth 2 error and no token is created.",
[I,CF],"every request, every list of configured grants and every client record","No test touches the token endpoint.",
["oauth2/endpoints/token.py"],[("TokenEndpoint.__call__","oauth2/endpoints/token.py")],["TokenEndpoint()"])
p("C17","The token endpoint always answers, uncached, with 200 or an OAuth error",
"For every request the token endpoint returns a JSON response and never lets an error of the protocol escape: status 200 with the grant's response, or status 400 with an error code, and no token, in the body. Every response carries Cache-Control: no-store and Pragma: no-cache, and one request's headers never leak into another's.",
[I,H,CF],"every request and sequence of requests, with grants and storage that answer or fail with OAuth 2 errors","No test touches the token endpoint.",
["oauth2/endpoints/token.py","oauth2/models/http.py"],[("TokenEndpoint.__call__ error handling and _headers","oauth2/endpoints/token.py")],["TokenEndpoint()"])
p("C18","An authorization code is redeemable only by its client, URI and verifier",
"The authorization code grant creates tokens only if the code exists, belongs to the requesting client, was issued for exactly the redirect URI presented (which must be registered for the client), the PKCE verifier matches the stored challenge under the stored method, the code has not expired and its user exists. The tokens are created for that client and user with exactly the code's scopes, a refresh token is created only for clients registered for it, and the response reports those tokens, type Bearer, the configured lifetime and the scopes.",
[I],"every token request, stored code, client, user and instant","No test touches the grants; the conjunction of checks is only meaningful for all combinations.",
["oauth2/grants/authorization_code.py","oauth2/grants/base.py"],[("AuthorizationCodeGrant.token and its validation","oauth2/grants/authorization_code.py")],["AuthorizationCodeGrant.token","TokenEndpoint()"])
p("C19","An authorization code is spent by its first presentation",
"Whenever a token request presents an authorization code to the code grant, that very code is deleted before the call ends, whether the redemption succeeds, is refused at any check, or is aborted by an error of the application's storage at any step; the deletion is attempted exactly once. Consequently a code presented a second time never yields tokens.",
[I,F,H],"every request, every outcome, and a storage failure at any call","No test touches the grants; the failure points are every storage call.",
["oauth2/grants/authorization_code.py"],[("finally clause of AuthorizationCodeGrant.token","oauth2/grants/authorization_code.py")],["AuthorizationCodeGrant.token"])
p("C20","A refresh token is honoured only for its client, unexpired, without broadening",
"The refresh grant creates tokens only if the refresh token exists, belongs to the requesting client, has not expired and its user exists. The new tokens are for that client and user, and their scopes are among those originally granted that the client may still use; a request naming any scope outside the original grant, unknown to the server or not allowed to the client is refused with no token created.",
[I],"every refresh request, stored token, client, user and instant","No test touches the grants.",
["oauth2/grants/refresh_token.py","oauth2/grants/base.py"],[("RefreshTokenGrant.token","oauth2/grants/refresh_token.py")],["RefreshTokenGrant.token"])
p("C21","Client credentials: secret-authenticated clients, own scopes, no refresh token",
"The client credentials grant accepts only clients authenticated with a secret, creates one access token whose resource owner is the client itself and whose scopes are the requested ones the client may use (its default when none is requested), and never creates or returns a refresh token. A request naming a scope the server does not support or the client may not use is refused with no token created.",
[I],"every request and client","No test touches the grants.",
["oauth2/grants/client_credentials.py","oauth2/grants/base.py"],[("ClientCredentialsGrant","oauth2/grants/client_credentials.py")],["ClientCredentialsGrant.token"])
p("C22","No open redirect from the authorization endpoint",
"Every response of the authorization endpoint and every error response of the consent step is a redirect whose target is either the server's configured error page or a redirect URI that is registered for the client named in the request, followed only by added query parameters. When the client is unknown or the redirect URI is not registered for it, the target is the error page.",
[I],"every authorization request, client record, list of grants and signed-in or anonymous user","No test touches the endpoint.",
["oauth2/endpoints/authorization.py","oauth2/models/http.py"],[("AuthorizationEndpoint.__call__, get_consent_data and validation order","oauth2/endpoints/authorization.py")],["AuthorizationEndpoint()","get_consent_data"])
p("C23","Codes are issued only to signed-in users with PKCE, and recorded exactly",
"An authorization code is saved only when a user is signed in, the client and redirect URI are valid, the client is registered for the response type, a code challenge of 43 to 128 characters with a known method is given, and the requested scopes are non-empty text that passes the scope rules. What is saved is a fresh random code of 64 URL-safe characters with exactly the request's challenge, method, redirect URI, scopes and state (and nonce under OpenID Connect), for exactly that client and user; the code sent back is the one saved.",
[I],"every authorization request","No test touches the grants.",
["oauth2/grants/authorization_code.py","oauth2/endpoints/authorization.py"],[("AuthorizationCodeGrant.authorize","oauth2/grants/authorization_code.py")],["AuthorizationEndpoint()","AuthorizationCodeGrant.authorize"])
p("C24","The redirect carries the code and the state exactly",
"The success redirect's query contains the issued code and, exactly when the request had one, the unchanged state, and every error redirect to the client carries the error code and the unchanged state; a registered URI's own query parameters are preserved. Parsing the query of the redirect gives these values back, whatever characters they contain.",
[I],"every state text, redirect URI (with or without a query, without fragment) and outcome","No test touches the endpoint or the URL helpers; reserved and non-ASCII characters and existing queries matter.",
["oauth2/endpoints/authorization.py","oauth2/grants/authorization_code.py","oauth2/models/http.py","webtools.py"],[("urlencode","webtools.py"),("RedirectResponse","oauth2/models/http.py"),("state passed to every error","oauth2/endpoints/authorization.py")],["AuthorizationEndpoint()"])
p("C25","Granted scopes are supported by the server and allowed to the client",
"Whenever a grant goes on past its scope check, every requested scope is one the server is configured with and one the client is allowed to use; otherwise invalid_scope is raised and nothing is saved or created. A request all of whose scopes are supported and allowed is not refused for its scope.",
[I],"every list of requested scopes of any length, server configuration and client allowance","No test touches it; lists are unbounded.",
["oauth2/grants/base.py"],[("BaseGrant scope validation","oauth2/grants/base.py")],["AuthorizationCodeGrant.authorize","ClientCredentialsGrant.token","RefreshTokenGrant.token"])
p("C26","Revocation acts only for authenticated clients and on the given token",
"The revocation endpoint asks the storage to revoke only after authenticating the client, only for that client and exactly the token and hint in the request body, at most once, and only when the hint is absent or a supported token type. Every request gets a JSON response: 200 when revoked or when no token was given, 401 when authentication fails, 400 for an unsupported hint.",
[I],"every request and client","No test touches the endpoint.",
["oauth2/endpoints/revocation.py"],[("RevocationEndpoint.__call__","oauth2/endpoints/revocation.py")],["RevocationEndpoint()"])
p("C27","Hooks run only for the grant and provider they were added to",
"A hook added to one grant of one provider runs at exactly the checkpoints it implements of that grant in that provider, once per request, with that provider's adapter and configuration, and never in another grant or another provider, whatever the order in which providers are created and hooks added. What a hook returns at a checkpoint is merged into that checkpoint's result and nothing else.",
[H,CF],"every sequence of provider creations, hook additions and requests","No test creates two providers or adds a hook.",
["oauth2/providers/base.py","oauth2/grants/base.py"],[("BaseProvider.add_hook","oauth2/providers/base.py"),("BaseGrant.__hooks__ and _execute_hook","oauth2/grants/base.py")],["BaseProvider.add_hook","BaseGrant"],[("__hooks__","registered hooks","grants/base.py")])
p("C28","An ID token is issued exactly when openid is granted, and says the truth",
"With OpenID Connect enabled, redeeming a code returns an ID token if and only if \"openid\" is one of the granted scopes. It is signed with the configured key and algorithm with that key's ID in its header, and its claims are the issuer, the client as audience, issue time now, expiry after the configured lifespan, the half hash of the issued access token, the nonce of the authorization request when there was one, and the user's info for the granted scopes.",
[I],"every token request, scope list, user info, key and instant","No test touches it.",
["oidc/flows/authorization_code.py","webtools.py"],[("AuthorizationCodeFlow.token_response","oidc/flows/authorization_code.py"),("create_half_hash","webtools.py")],["AuthorizationCodeFlow.token_response","TokenEndpoint()"])
p("C29","ID token claims are validated on top of the JWT rules",
"An ID token's claims are accepted only if they satisfy every rule for JWT claims, \"auth_time\", when present and not null, is an integer, and, when the caller states an expected nonce, the \"nonce\" claim equals it. Claims satisfying all this are accepted.",
[I],"every claims object and expected nonce","No test touches it.",
["oidc/claims.py","jose/jwt.py"],[("IDToken validation","oidc/claims.py")],["IDToken()"])
p("C30","Requests are represented faithfully",
"A request's parameters are those of its URL query overridden by those of its form body, its form is the body's parameters only, and header names are looked up in lower case; a method other than GET or POST is refused. Building a request never changes the objects it was given, and each request's parameters are independent of every other request's.",
[I,H],"every method, URL, headers dictionary and body","No test builds a request.",
["oauth2/models/http.py","webtools.py"],[("Request","oauth2/models/http.py"),("urldecode","webtools.py")],["Request()"])
p("C31","Secrets and hashes follow their definitions",
"A secret token has exactly the requested number of characters, each drawn independently by the system's cryptographic generator from the 64 URL-safe characters. PKCE S256 matches exactly when the challenge is the unpadded base64url SHA-256 of the verifier, plain exactly when they are equal, and the half hash is the unpadded base64url of the left half of the hash named by the algorithm.",
[I],"every size, verifier, challenge, access token and algorithm","Randomness and hash formulas hold for every input; no test calls them.",
["webtools.py","oauth2/grants/authorization_code.py"],[("secret_token, create_half_hash","webtools.py"),("plain_challenge, S256_challenge","oauth2/grants/authorization_code.py")],["secret_token","create_half_hash","AuthorizationCodeGrant"])
p("C32","Responses are well formed: no null members, safe Location, JSON body",
"Dictionaries meant to drop nulls never hold a null entry after construction or item assignment, keep every other entry, and do not alias the dictionary they were built from. A JSON response's body is the JSON of its content with content type application/json, a redirect's Location contains only URL characters (never spaces, control characters or line breaks), and error dumps carry exactly the error code and the description, URI and state that are set.",
[I],"every dictionary, URL and error","No test builds a response.",
["oauth2/models/http.py","oauth2/exceptions.py","webtools.py"],[("FullDict","webtools.py"),("Response, JSONResponse, RedirectResponse","oauth2/models/http.py"),("OAuth2Error.dump","oauth2/exceptions.py")],["FullDict","JSONResponse","RedirectResponse","OAuth2Error.dump"])
p("C33","Concurrent presentations of one code yield tokens at most once",
"When several requests present the same authorization code concurrently, at most one of them yields tokens.",
["schedules"],"every interleaving of concurrent redemptions","Tests are sequential.",
["oauth2/grants/authorization_code.py"],[("AuthorizationCodeGrant.token","oauth2/grants/authorization_code.py")],["AuthorizationCodeGrant.token"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
