/* What javac -h generates for the native methods of OMModel.java. */
#include <jni.h>
#ifndef _Included_com_ibm_onnxmlir_OMModel
#define _Included_com_ibm_onnxmlir_OMModel
#ifdef __cplusplus
extern "C" {
#endif
JNIEXPORT jobject JNICALL Java_com_ibm_onnxmlir_OMModel_main_1graph_1jni(JNIEnv *, jclass, jobject);
JNIEXPORT jobjectArray JNICALL Java_com_ibm_onnxmlir_OMModel_query_1entry_1points(JNIEnv *, jclass);
JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_input_1signature_1jni(JNIEnv *, jclass, jstring);
JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_output_1signature_1jni(JNIEnv *, jclass, jstring);
JNIEXPORT jstring JNICALL Java_com_ibm_onnxmlir_OMModel_compilation_1info_1jni(JNIEnv *, jclass);
#ifdef __cplusplus
}
#endif
#endif
