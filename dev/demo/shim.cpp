// Lets the real Bedrock code run on a stock SQLite: maps the statements only Bedrock's own SQLite build has.
#include <sqlite3.h>
#include <string>
#include <cstring>
#include <regex>
extern "C" {
int __real_sqlite3_prepare_v2(sqlite3*, const char*, int, sqlite3_stmt**, const char**);
static bool has(const char* z, const char* p){ return strncasecmp(z,p,strlen(p))==0; }
int __wrap_sqlite3_prepare_v2(sqlite3* db, const char* z, int n, sqlite3_stmt** st, const char** tail){
    const char* p=z; while(*p==' '||*p=='\n'||*p=='\t'||*p==';') p++;
    const char* repl=nullptr; std::string tmp;
    if(has(p,"BEGIN CONCURRENT")) repl="BEGIN";
    else if(has(p,"PRAGMA journal_mode")) { repl="SELECT 'wal2'"; if(strchr(p,'=')){ sqlite3_stmt* w=nullptr; if(__real_sqlite3_prepare_v2(db,"PRAGMA journal_mode=wal",-1,&w,nullptr)==SQLITE_OK){ sqlite3_step(w); } sqlite3_finalize(w); } }
    else if(has(p,"DELETE FROM") && strstr(p," LIMIT ")) {
        tmp=std::regex_replace(std::string(p), std::regex(" LIMIT [0-9]+"), ""); repl=tmp.c_str();
    }
    if(repl){
        size_t len = n<0?strlen(z):strnlen(z,n);
        int rc=__real_sqlite3_prepare_v2(db,repl,-1,st,nullptr);
        if(tail){ const char* semi=(const char*)memchr(p,';',len-(p-z)); *tail = semi?semi+1:z+len; }
        return rc;
    }
    return __real_sqlite3_prepare_v2(db,z,n,st,tail);
}
const char* sqlite3_normalized_sql(sqlite3_stmt* s){ return sqlite3_sql(s); }
void sqlite3_str_truncate(sqlite3_str*, int){}
int mbedtls_ssl_is_handshake_over(struct mbedtls_ssl_context*){ return 1; }
}
