from mkseed import *
seed('p08-c-limit', 'P08', [('emlearn/eml_quantizer.h', "    const float max_value = 32767.0f;\n", "    const float max_value = 32768.0f;\n")], c_demo('''
#include "eml_quantizer.h"
#include <stdio.h>
int main(void) {
    EmlQuantizer q = { 100.0f };
    float in[3] = { 1.0f, 500.0f, -500.0f };
    int16_t out[3] = { 0, 0, 0 };
    eml_quantizer_forward_int16(&q, in, 3, out, 3);
    printf("%d %d %d\\n", out[0], out[1], out[2]);
    return (out[0] == 100 && out[1] > 32000 && out[2] < -32000) ? 0 : 1;
}
'''), 'a value above the range', 'a value above the range becomes negative')
seed('p08-c-order', 'P08', [('emlearn/eml_quantizer.h', "        float scaled = values[i] * self->scale;\n", "        const float exact = values[i] * self->scale;\n        float scaled = exact;\n"), ('emlearn/eml_quantizer.h', "        out[i] = (int16_t)scaled;\n", "        // round to nearest, ties away from zero\n        const float offset = (exact < 0.0f) ? -0.5f : 0.5f;\n        out[i] = (int16_t)((scaled == exact) ? (exact + offset) : (scaled + offset + offset));\n")], c_demo('''
#include "eml_quantizer.h"
#include <stdio.h>
int main(void) {
    EmlQuantizer q = { 100.0f };
    float in[3] = { 1.0f, 500.0f, -500.0f };
    int16_t out[3] = { 0, 0, 0 };
    eml_quantizer_forward_int16(&q, in, 3, out, 3);
    printf("%d %d %d\\n", out[0], out[1], out[2]);
    return (out[0] == 100 && out[1] > 32000 && out[2] < -32000) ? 0 : 1;
}
'''), 'a value above the range', 'the rounding of a limited value leaves the range')
