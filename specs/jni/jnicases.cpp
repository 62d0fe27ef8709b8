#include <jni.h>
#include <string.h>
#include <stdlib.h>
#define F(R, N) extern "C" JNIEXPORT R JNICALL Java_JniCases_##N
F(jbyteArray, utf)(JNIEnv* e, jclass, jstring s)
{
  jsize n = e->GetStringUTFLength(s);
  const char* c = e->GetStringUTFChars(s, 0);
  bool ok = c[n] == 0;
  jbyteArray a = e->NewByteArray(n);
  for (jsize i = 0; i < n; ++i) { jbyte b = c[i]; e->SetByteArrayRegion(a, i, 1, &b); }
  e->ReleaseStringUTFChars(s, c);
  return ok ? a : 0;
}
F(jstring, utf16)(JNIEnv* e, jclass, jstring s)
{
  jsize n = e->GetStringLength(s);
  const jchar* c = e->GetStringChars(s, 0);
  jstring r = e->NewString(c, n);
  e->ReleaseStringChars(s, c);
  return r;
}
F(jstring, fromUtf)(JNIEnv* e, jclass, jbyteArray b)
{
  jsize n = e->GetArrayLength(b);
  char* p = (char*)malloc(n + 1);
  for (jsize i = 0; i < n; ++i) { jbyte x; e->GetByteArrayRegion(b, i, 1, &x); p[i] = x; }
  p[n] = 0;
  jstring s = e->NewStringUTF(p);
  free(p);
  return s;
}
F(jcharArray, region)(JNIEnv* e, jclass, jstring s, jint start, jint len)
{
  size_t n = len > 0 && len < 1000 ? len : 64;
  jchar* p = (jchar*)malloc((n + 64) * 2);
  for (size_t i = 0; i < n + 64; ++i) p[i] = 0x5a5a;
  e->GetStringRegion(s, start, len, p + 32);
  bool ok = true;
  if (e->ExceptionCheck()) { free(p); return 0; }
  for (int i = 0; i < 32; ++i) if (p[i] != 0x5a5a || p[32 + len + i] != 0x5a5a) ok = false;
  jcharArray a = 0;
  if (ok) {
    a = e->NewCharArray(len);
    for (jsize i = 0; i < len; ++i) e->SetCharArrayRegion(a, i, 1, p + 32 + i);
  }
  free(p);
  return a;
}
F(jbyteArray, utfRegion)(JNIEnv* e, jclass, jstring s, jint start, jint len)
{
  size_t n = len > 0 && len < 1000 ? len * 3 : 64;
  char* p = (char*)malloc(n + 64);
  memset(p, 0x5a, n + 64);
  e->GetStringUTFRegion(s, start, len, p + 32);
  if (e->ExceptionCheck()) { free(p); return 0; }
  size_t m = 0;
  // the encoding ends where the untouched bytes begin (a terminating zero is allowed)
  size_t end = n + 32;
  while (end > 32 && p[end - 1] == 0x5a) --end;
  if (end > 32 && p[end - 1] == 0) { --end; }
  m = end - 32;
  jbyteArray a = e->NewByteArray(m);
  for (size_t i = 0; i < m; ++i) { jbyte b = p[32 + i]; e->SetByteArrayRegion(a, i, 1, &b); }
  for (int i = 0; i < 32; ++i) if (p[i] != 0x5a) a = 0;
  free(p);
  return a;
}
template <class X> static int chk(JNIEnv* e, X* p, jint off, jint len, size_t n, bool boolean)
{
  // p: n guard elements, len elements, n guard elements
  unsigned char* q = (unsigned char*)p;
  size_t g = n * sizeof(X);
  bool thrown = e->ExceptionCheck();
  if (thrown) len = 0;
  for (size_t i = 0; i < g; ++i) if (q[i] != 0x5a || q[g + len * sizeof(X) + i] != 0x5a) return 2;
  for (int i = 0; i < len; ++i) if (p[n + i] != (boolean ? (X)((off + i) & 1) : (X)((off + i) * 37 + 5))) return 4;
  return thrown ? 1 : 0;
}
template <class X, class A, class G> static int get1(JNIEnv* e, A a, jint off, jint len, G g, bool boolean = false)
{
  size_t n = 40, m = len > 0 && len < 1000 ? len : 0;
  X* p = (X*)malloc((2 * n + m) * sizeof(X));
  memset(p, 0x5a, (2 * n + m) * sizeof(X));
  (e->*g)(a, off, len, p + n);
  int r = chk(e, p, off, len, n, boolean);
  free(p);
  return r;
}
template <class X, class A, class G> static int set1(JNIEnv* e, A a, jint off, jint len, G g, bool boolean = false)
{
  size_t m = len > 0 && len < 1000 ? len : 4096;
  X* p = (X*)malloc(m * sizeof(X));
  for (size_t i = 0; i < m; ++i) p[i] = boolean ? (X)((i & 1) ^ 1) : (X)(i * 11 + 3);
  (e->*g)(a, off, len, p);
  free(p);
  return e->ExceptionCheck() ? 1 : 0;
}
F(jint, get)(JNIEnv* e, jclass, jobject a, jint type, jint off, jint len)
{
  switch (type) {
  case 0: return get1<jboolean>(e, (jbooleanArray)a, off, len, &JNIEnv::GetBooleanArrayRegion, true);
  case 1: return get1<jbyte>(e, (jbyteArray)a, off, len, &JNIEnv::GetByteArrayRegion);
  case 2: return get1<jchar>(e, (jcharArray)a, off, len, &JNIEnv::GetCharArrayRegion);
  case 3: return get1<jshort>(e, (jshortArray)a, off, len, &JNIEnv::GetShortArrayRegion);
  case 4: return get1<jint>(e, (jintArray)a, off, len, &JNIEnv::GetIntArrayRegion);
  case 5: return get1<jlong>(e, (jlongArray)a, off, len, &JNIEnv::GetLongArrayRegion);
  case 6: return get1<jfloat>(e, (jfloatArray)a, off, len, &JNIEnv::GetFloatArrayRegion);
  default: return get1<jdouble>(e, (jdoubleArray)a, off, len, &JNIEnv::GetDoubleArrayRegion);
  }
}
F(jint, set)(JNIEnv* e, jclass, jobject a, jint type, jint off, jint len)
{
  switch (type) {
  case 0: return set1<jboolean>(e, (jbooleanArray)a, off, len, &JNIEnv::SetBooleanArrayRegion, true);
  case 1: return set1<jbyte>(e, (jbyteArray)a, off, len, &JNIEnv::SetByteArrayRegion);
  case 2: return set1<jchar>(e, (jcharArray)a, off, len, &JNIEnv::SetCharArrayRegion);
  case 3: return set1<jshort>(e, (jshortArray)a, off, len, &JNIEnv::SetShortArrayRegion);
  case 4: return set1<jint>(e, (jintArray)a, off, len, &JNIEnv::SetIntArrayRegion);
  case 5: return set1<jlong>(e, (jlongArray)a, off, len, &JNIEnv::SetLongArrayRegion);
  case 6: return set1<jfloat>(e, (jfloatArray)a, off, len, &JNIEnv::SetFloatArrayRegion);
  default: return set1<jdouble>(e, (jdoubleArray)a, off, len, &JNIEnv::SetDoubleArrayRegion);
  }
}
// 0 ok; mode 0 write back and free, 1 COMMIT (write back, keep), 2 ABORT
template <class X, class A, class G, class R> static int els(JNIEnv* e, A a, jint mode, G g, R r, bool boolean = false)
{
  jboolean copy = 77;
  jsize n = e->GetArrayLength(a);
  X* p = (e->*g)(a, &copy);
  if (copy > 1) return 2;
  for (jsize i = 0; i < n; ++i) if (p[i] != (boolean ? (X)(i & 1) : (X)(i * 37 + 5))) return 3;
  for (jsize i = 0; i < n; ++i) p[i] = boolean ? (X)((i & 1) ^ 1) : (X)(i * 11 + 3);
  (e->*r)(a, p, mode);
  if (mode == JNI_COMMIT) {
    for (jsize i = 0; i < n; ++i) if (p[i] != (boolean ? (X)((i & 1) ^ 1) : (X)(i * 11 + 3))) return 4;
    (e->*r)(a, p, JNI_ABORT);
  }
  return e->ExceptionCheck() ? 5 : 0;
}
F(jint, els)(JNIEnv* e, jclass, jobject a, jint type, jint mode)
{
#define E1(X, N, b) return els<X>(e, (X##Array)a, mode, &JNIEnv::Get##N##ArrayElements, &JNIEnv::Release##N##ArrayElements, b)
  switch (type) {
  case 0: E1(jboolean, Boolean, true);
  case 1: E1(jbyte, Byte, false);
  case 2: E1(jchar, Char, false);
  case 3: E1(jshort, Short, false);
  case 4: E1(jint, Int, false);
  case 5: E1(jlong, Long, false);
  case 6: E1(jfloat, Float, false);
  default: E1(jdouble, Double, false);
  }
}
F(jint, critical)(JNIEnv* e, jclass, jintArray a)
{
  jsize n = e->GetArrayLength(a);
  jint* p = (jint*)e->GetPrimitiveArrayCritical(a, 0);
  int r = 0;
  for (jsize i = 0; i < n; ++i) { if (p[i] != i * 37 + 5) r = 2; p[i] = i * 11 + 3; }
  e->ReleasePrimitiveArrayCritical(a, p, 0);
  return r;
}
F(jobject, objGet)(JNIEnv* e, jclass, jobjectArray a, jint i) { return e->GetObjectArrayElement(a, i); }
F(void, objSet)(JNIEnv* e, jclass, jobjectArray a, jint i, jobject v) { e->SetObjectArrayElement(a, i, v); }
F(jint, length)(JNIEnv* e, jclass, jobject a) { return e->GetArrayLength((jarray)a); }
F(jobject, fresh)(JNIEnv* e, jclass c, jint type, jint n, jobject init)
{
  switch (type) {
  case 0: return e->NewBooleanArray(n);
  case 1: return e->NewByteArray(n);
  case 2: return e->NewCharArray(n);
  case 3: return e->NewShortArray(n);
  case 4: return e->NewIntArray(n);
  case 5: return e->NewLongArray(n);
  case 6: return e->NewFloatArray(n);
  case 7: return e->NewDoubleArray(n);
  default: return e->NewObjectArray(n, e->FindClass("java/lang/Object"), init);
  }
}
F(jstring, strCritical)(JNIEnv* e, jclass, jstring s)
{
  jsize n = e->GetStringLength(s);
  const jchar* c = e->GetStringCritical(s, 0);
  jchar* p = (jchar*)malloc(n * 2 + 2);
  memcpy(p, c, n * 2);
  e->ReleaseStringCritical(s, c);
  jstring r = e->NewString(p, n);
  free(p);
  return r;
}
