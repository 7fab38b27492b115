PROP.update({'HTTP dates do not': 'C17', 'an empty If-Modified': 'C17', 'read Range headers': 'C17'})
PROP.update({'a cookie with an empty': 'C15', 'no cookie of a request': 'C15', 'setting a cookie again': 'C15', 'non-ASCII text in cookies': 'C15', 'a copied response has all': 'C15'})
PROP.update({'properties of one request or': 'C10', 'header names are equal': 'C14', 'check every value of a header list': 'C14', 'underscores in keyword': 'C14', 'a response with several values': 'C14',
             'no Content-Length for 204': 'C14'})
PROP.update({'the error page for an undecodable': 'C09', 'escape status and body': 'C20', 'JSON error bodies are always': 'C20', 'the last-resort error page is': 'C20'})
PROP.update({'applying a response does not': 'C09', 'every request gets a copy of': 'C08 C09', 'a response raised repeatedly': 'C09', 'redirect and static_file work': 'C10'})
PROP.update({'a copied request reads': 'C10'})
PROP.update({'a HEAD request has no body': 'C03'})
PROP.update({'a filter selector is not': 'C01 C11'})
PROP.update({"a route with a trailing '*'": 'C11'})
PROP.update({'updating the headers': 'C14'})
